From 67710eaeae35b78b87ce58336a6d2a4a951ac8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 01/50] fix: treat only canonical decimal integers as JSON
 Pointer indices

---
 jsonpath/pointer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 3628347..eca9253 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -37,6 +37,8 @@ class _Undefined:
 
 UNDEFINED = _Undefined()
 
+RE_INDEX = re.compile(r"0|-?[1-9][0-9]*")
+
 
 class JSONPointer:
     """Identify a single, specific value in JSON-like data, as per RFC 6901.
@@ -108,8 +110,8 @@ class JSONPointer:
         )[1:]
 
     def _index(self, s: str) -> Union[str, int]:
-        # Reject non-zero ints that start with a zero.
-        if len(s) > 1 and s.startswith("0"):
+        # Only canonical decimal integers are indices, optionally negative.
+        if not RE_INDEX.fullmatch(s):
             return s
 
         try:
-- 
2.43.0


From 591f3c7e1303ff82c2420a3e1f8d6c64b5d5861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 02/50] fix: don't resolve JSON Pointer tokens against strings

---
 jsonpath/pointer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index eca9253..357f32d 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -123,6 +123,10 @@ class JSONPointer:
             return s
 
     def _getitem(self, obj: Any, key: Any) -> Any:  # noqa: PLR0912
+        if isinstance(obj, str):
+            # Strings are JSON scalars, not arrays of characters.
+            raise JSONPointerTypeError(f"{key}: can't resolve against a string")
+
         try:
             return getitem(obj, key)
         except KeyError as err:
-- 
2.43.0


From 8d4dbd43937c05bb4fa0e92e8ec5709424e2d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 03/50] fix: malformed '#' index tokens are pointer type errors

---
 jsonpath/pointer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 357f32d..58d5e96 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -154,7 +154,9 @@ class JSONPointer:
                     raise JSONPointerIndexError("index out of range") from None
                 # Handle non-standard index pointer.
                 if isinstance(key, str) and key.startswith("#"):
-                    _index = int(key[1:])
+                    _index = self._index(key[1:])
+                    if not isinstance(_index, int) or _index < 0:
+                        raise JSONPointerTypeError(f"{key}: {err}") from err
                     if _index >= len(obj):
                         raise JSONPointerIndexError(
                             f"index out of range: {_index}"
-- 
2.43.0


From 378c669676ae0b6192989811f3cd1d3272b098a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 04/50] fix: decode escape sequences in pointers without
 mangling non-ASCII text

---
 jsonpath/pointer.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 58d5e96..ae3dc6f 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -37,9 +37,30 @@ class _Undefined:
 
 UNDEFINED = _Undefined()
 
+RE_ASCII = re.compile(r"[\x00-\x7f]+")
 RE_INDEX = re.compile(r"0|-?[1-9][0-9]*")
 
 
+def _decode_escapes(s: str) -> str:
+    """Decode backslash escape sequences in _s_, leaving other characters as is."""
+    if "\\" not in s:
+        return s
+
+    try:
+        # The "unicode-escape" codec works with Latin-1 encoded bytes, so only
+        # feed it runs of ASCII characters.
+        return (
+            RE_ASCII.sub(
+                lambda m: codecs.decode(m.group(), "unicode-escape"),
+                s.replace("\\/", "/"),
+            )
+            .encode("utf-16", "surrogatepass")
+            .decode("utf-16")
+        )
+    except UnicodeError as err:
+        raise JSONPointerError(f"invalid escape sequence: {err}") from err
+
+
 class JSONPointer:
     """Identify a single, specific value in JSON-like data, as per RFC 6901.
 
@@ -254,11 +275,7 @@ class JSONPointer:
         # UTF-16 escape sequences - possibly surrogate pairs - inside UTF-8
         # encoded strings. As per https://datatracker.ietf.org/doc/html/rfc4627
         # section 2.5.
-        return (
-            codecs.decode(s.replace("\\/", "/"), "unicode-escape")
-            .encode("utf-16", "surrogatepass")
-            .decode("utf-16")
-        )
+        return _decode_escapes(s)
 
     @classmethod
     def from_match(
@@ -304,12 +321,7 @@ class JSONPointer:
         if uri_decode:
             _parts = (unquote(p) for p in _parts)
         if unicode_escape:
-            _parts = (
-                codecs.decode(p.replace("\\/", "/"), "unicode-escape")
-                .encode("utf-16", "surrogatepass")
-                .decode("utf-16")
-                for p in _parts
-            )
+            _parts = (_decode_escapes(p) for p in _parts)
 
         __parts = tuple(_parts)
 
-- 
2.43.0


From 008d191c987a2e45135f4eb9a2c5a155a7efc361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 05/50] fix: compare JSON Pointers by their reference tokens

---
 jsonpath/pointer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index ae3dc6f..ef0ab1d 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -341,14 +341,14 @@ class JSONPointer:
         """Return _True_ if this pointer points to a child of _other_."""
         return (
             len(other.parts) < len(self.parts)
-            and self.parts[: len(other.parts)] == other.parts
+            and self._encode(self.parts[: len(other.parts)]) == other._s
         )
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, JSONPointer) and self.parts == other.parts
+        return isinstance(other, JSONPointer) and self._s == other._s
 
     def __hash__(self) -> int:
-        return hash(self.parts)
+        return hash(self._s)
 
     def __repr__(self) -> str:
         return f"JSONPointer({self._s!r})"
-- 
2.43.0


From f42ca261e392b13a962fa9ebe8fe05f918e38c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 06/50] fix: accept relative pointer index offsets of more than
 one digit

---
 jsonpath/pointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index ef0ab1d..a9b909a 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -466,7 +466,7 @@ class JSONPointer:
 
 
 RE_RELATIVE_POINTER = re.compile(
-    r"(?P<ORIGIN>\d+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>\d))?(?P<POINTER>.*)",
+    r"(?P<ORIGIN>[0-9]+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>[0-9]+))?(?P<POINTER>.*)",
     re.DOTALL,
 )
 
-- 
2.43.0


From 71c0a20c03163a2bb9de6626b22183bb8bb6a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 07/50] fix: don't strip blanks from the end of a relative
 pointer's suffix

---
 jsonpath/pointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index a9b909a..27c1954 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -531,7 +531,7 @@ class RelativeJSONPointer:
             index = 0
 
         # Pointer or '#'. Empty string is OK.
-        _pointer = match.group("POINTER").strip()
+        _pointer = match.group("POINTER")
         pointer = (
             JSONPointer(
                 _pointer,
-- 
2.43.0


From 6a6a45e97e3346033426669467f8754b9b8547ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 08/50] fix: only offset canonical array indices when applying
 relative pointers

---
 jsonpath/pointer.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 27c1954..0f6a88b 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -558,11 +558,7 @@ class RelativeJSONPointer:
     def _int_like(self, obj: Any) -> bool:
         if isinstance(obj, int):
             return True
-        try:
-            int(obj)
-        except ValueError:
-            return False
-        return True
+        return isinstance(obj, str) and RE_INDEX.fullmatch(obj) is not None
 
     def to(
         self,
-- 
2.43.0


From 37459eddda1f5f25f991fde5a22eb46f19e268f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 09/50] fix: refuse '#' at the root and don't decode relative
 pointer results twice

---
 jsonpath/pointer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 0f6a88b..03081d4 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -608,11 +608,14 @@ class RelativeJSONPointer:
             parts.extend(self.pointer.parts)
         else:
             assert self.pointer == "#"
+            if not parts:
+                raise RelativeJSONPointerIndexError(
+                    "the document root has no key or index"
+                )
             parts[-1] = f"#{parts[-1]}"
 
-        return JSONPointer.from_parts(
-            parts, unicode_escape=unicode_escape, uri_decode=uri_decode
-        )
+        # The base pointer and suffix have already been decoded.
+        return JSONPointer.from_parts(parts, unicode_escape=False, uri_decode=False)
 
 
 def resolve(
-- 
2.43.0


From cf85999d5872a7029610db7d326e855437c1bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 10/50] fix: locate patch targets as RFC 6902 says: indices,
 '-', member names, root

---
 jsonpath/patch.py | 160 ++++++++++++++++++++++------------------------
 1 file changed, 75 insertions(+), 85 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index ce5c054..6c95980 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -4,15 +4,19 @@ from __future__ import annotations
 
 import copy
 import json
+import re
 from abc import ABC
 from abc import abstractmethod
+from functools import reduce
 from io import IOBase
+from typing import Any
 from typing import Dict
 from typing import Iterable
 from typing import List
 from typing import Mapping
 from typing import MutableMapping
 from typing import MutableSequence
+from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
@@ -27,6 +31,49 @@ from jsonpath.pointer import UNDEFINED
 from jsonpath.pointer import JSONPointer
 
 
+RE_ARRAY_INDEX = re.compile(r"0|[1-9][0-9]*")
+
+
+def _resolve_parent(pointer: JSONPointer, data: object) -> Tuple[Any, Any, object]:
+    """Find the location identified by _pointer_ in the document _data_.
+
+    Returns:
+        A `(parent, key, value)` tuple. _parent_ is `None` if _pointer_ points to
+            the document root. If _parent_ is an array, _key_ is an index between
+            zero and the length of the array, or `None` if the pointer's last part
+            is neither a canonical array index in that range nor `-`. _value_ is
+            `UNDEFINED` if there's no such array item or object member.
+    """
+    if not pointer.parts:
+        return (None, None, data)
+
+    parent: Any = reduce(pointer._getitem, pointer.parts[:-1], data)  # noqa: SLF001
+    part = str(pointer.parts[-1])
+
+    if isinstance(parent, MutableSequence):
+        if part == "-":
+            return (parent, len(parent), UNDEFINED)
+        if not RE_ARRAY_INDEX.fullmatch(part) or int(part) > len(parent):
+            return (parent, None, UNDEFINED)
+        index = int(part)
+        return (parent, index, parent[index] if index < len(parent) else UNDEFINED)
+
+    if isinstance(parent, MutableMapping):
+        return (parent, part, parent[part] if part in parent else UNDEFINED)
+
+    raise JSONPatchError(f"unexpected operation on {parent.__class__.__name__!r}")
+
+
+def _add(parent: Any, key: Any, value: object) -> None:
+    """Insert _value_ into an array, or add it to an object."""
+    if isinstance(parent, MutableSequence):
+        if key is None:
+            raise JSONPatchError("index out of range")
+        parent.insert(key, value)
+    else:
+        parent[key] = value
+
+
 class Op(ABC):
     """One of the JSON Patch operations."""
 
@@ -58,27 +105,13 @@ class OpAdd(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, key, _ = _resolve_parent(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                if target == "-":
-                    parent.append(self.value)
-                else:
-                    raise JSONPatchError("index out of range")
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {parent.__class__.__name__!r}"
-            )
+        _add(parent, key, self.value)
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -103,20 +136,14 @@ class OpAddNe(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, key, obj = _resolve_parent(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                parent.append(self.value)
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = self.value
+        if isinstance(parent, MutableSequence) or obj is UNDEFINED:
+            _add(parent, key, self.value)
         return data
 
 
@@ -137,24 +164,15 @@ class OpAddAp(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, key, _ = _resolve_parent(self.path, data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
             return self.value  # type: ignore
 
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                parent.append(self.value)
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {parent.__class__.__name__!r}"
-            )
+        if key is None:
+            key = len(parent)
+        _add(parent, key, self.value)
         return data
 
 
@@ -172,22 +190,17 @@ class OpRemove(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, key, obj = _resolve_parent(self.path, data)
         if parent is None:
             raise JSONPatchError("can't remove root")
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent item")
-            del parent[int(self.path.parts[-1])]
-        elif isinstance(parent, MutableMapping):
-            if obj is UNDEFINED:
-                raise JSONPatchError("can't remove nonexistent property")
-            del parent[self.path.parts[-1]]
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {parent.__class__.__name__!r}"
-            )
+        elif obj is UNDEFINED:
+            raise JSONPatchError("can't remove nonexistent property")
+
+        del parent[key]
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -210,22 +223,17 @@ class OpReplace(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, key, obj = _resolve_parent(self.path, data)
         if parent is None:
             return self.value  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(self.path.parts[-1])] = self.value
-        elif isinstance(parent, MutableMapping):
-            if obj is UNDEFINED:
-                raise JSONPatchError("can't replace nonexistent property")
-            parent[self.path.parts[-1]] = self.value
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {parent.__class__.__name__!r}"
-            )
+        elif obj is UNDEFINED:
+            raise JSONPatchError("can't replace nonexistent property")
+
+        parent[key] = self.value
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -251,31 +259,21 @@ class OpMove(Op):
         if self.dest.is_relative_to(self.source):
             raise JSONPatchError("can't move object to one of its own children")
 
-        source_parent, source_obj = self.source.resolve_parent(data)
+        source_parent, source_key, source_obj = _resolve_parent(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        if isinstance(source_parent, MutableSequence):
-            del source_parent[int(self.source.parts[-1])]
-        if isinstance(source_parent, MutableMapping):
-            del source_parent[self.source.parts[-1]]
+        if source_parent is not None:
+            del source_parent[source_key]
 
-        dest_parent, _ = self.dest.resolve_parent(data)
+        dest_parent, dest_key, _ = _resolve_parent(self.dest, data)
 
         if dest_parent is None:
             # Move source to root
             return source_obj  # type: ignore
 
-        if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), source_obj)
-        elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = source_obj
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {dest_parent.__class__.__name__!r}"
-            )
-
+        _add(dest_parent, dest_key, source_obj)
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -298,26 +296,18 @@ class OpCopy(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        source_parent, source_obj = self.source.resolve_parent(data)
+        _, _, source_obj = _resolve_parent(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        dest_parent, dest_obj = self.dest.resolve_parent(data)
+        dest_parent, dest_key, _ = _resolve_parent(self.dest, data)
 
         if dest_parent is None:
             # Copy source to root
             return copy.deepcopy(source_obj)  # type: ignore
 
-        if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), copy.deepcopy(source_obj))
-        elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = copy.deepcopy(source_obj)
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {dest_parent.__class__.__name__!r}"
-            )
-
+        _add(dest_parent, dest_key, copy.deepcopy(source_obj))
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -340,7 +330,7 @@ class OpTest(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        _, obj = self.path.resolve_parent(data)
+        _, _, obj = _resolve_parent(self.path, data)
         if not obj == self.value:
             raise JSONPatchTestFailure
         return data
-- 
2.43.0


From fa9a857b4d57731fb27547edbfdbdc617d392ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 11/50] fix: build addap operations from patch documents

---
 jsonpath/patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 6c95980..4bda583 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -409,12 +409,12 @@ class JSONPatch:
                     value=self._op_value(operation, "value", "addne", i),
                 )
             elif op == "addap":
-                self.addne(
+                self.addap(
                     path=self._op_pointer(operation, "path", "addap", i),
                     value=self._op_value(operation, "value", "addap", i),
                 )
             elif op == "remove":
-                self.remove(path=self._op_pointer(operation, "path", "add", i))
+                self.remove(path=self._op_pointer(operation, "path", "remove", i))
             elif op == "replace":
                 self.replace(
                     path=self._op_pointer(operation, "path", "replace", i),
-- 
2.43.0


From b34d55d77e2d88c8118aa6e1cffe5befb1d9fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 12/50] fix: don't share a patch operation's value with patched
 documents

---
 jsonpath/patch.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 4bda583..c6360cb 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -109,9 +109,9 @@ class OpAdd(Op):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
-        _add(parent, key, self.value)
+        _add(parent, key, copy.deepcopy(self.value))
         return data
 
     def asdict(self) -> Dict[str, object]:
@@ -140,10 +140,10 @@ class OpAddNe(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence) or obj is UNDEFINED:
-            _add(parent, key, self.value)
+            _add(parent, key, copy.deepcopy(self.value))
         return data
 
 
@@ -168,11 +168,11 @@ class OpAddAp(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if key is None:
             key = len(parent)
-        _add(parent, key, self.value)
+        _add(parent, key, copy.deepcopy(self.value))
         return data
 
 
@@ -225,7 +225,7 @@ class OpReplace(Op):
         """Apply this patch operation to _data_."""
         parent, key, obj = _resolve_parent(self.path, data)
         if parent is None:
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
@@ -233,7 +233,7 @@ class OpReplace(Op):
         elif obj is UNDEFINED:
             raise JSONPatchError("can't replace nonexistent property")
 
-        parent[key] = self.value
+        parent[key] = copy.deepcopy(self.value)
         return data
 
     def asdict(self) -> Dict[str, object]:
-- 
2.43.0


From 147dc6f70d11cc4e20ad504a644f23d0db7de478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 13/50] fix: never equate booleans with numbers in patch test
 operations

---
 jsonpath/_data.py | 30 ++++++++++++++++++++++++++++++
 jsonpath/patch.py |  3 ++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/jsonpath/_data.py b/jsonpath/_data.py
index e923bf5..a127a28 100644
--- a/jsonpath/_data.py
+++ b/jsonpath/_data.py
@@ -2,6 +2,8 @@ import json
 import re
 from io import IOBase
 from typing import Any
+from typing import Mapping
+from typing import Sequence
 
 _RE_PROBABLY_MALFORMED = re.compile(r"[\{\}\[\]]")
 
@@ -19,3 +21,31 @@ def load_data(data: object) -> Any:
     if isinstance(data, IOBase):
         return json.loads(data.read())
     return data
+
+
+def json_equal(left: object, right: object) -> bool:
+    """Return _True_ if _left_ and _right_ are equal JSON values.
+
+    Unlike Python's `==`, a boolean is never equal to a number, at any depth.
+    """
+    if isinstance(left, bool) or isinstance(right, bool):
+        return isinstance(left, bool) and isinstance(right, bool) and left == right
+
+    if isinstance(left, Mapping) and isinstance(right, Mapping):
+        return len(left) == len(right) and all(
+            key in right and json_equal(value, right[key])
+            for key, value in left.items()
+        )
+
+    if (
+        isinstance(left, Sequence)
+        and isinstance(right, Sequence)
+        and not isinstance(left, (str, bytes))
+        and not isinstance(right, (str, bytes))
+    ):
+        return len(left) == len(right) and all(
+            json_equal(left_item, right_item)
+            for left_item, right_item in zip(left, right)
+        )
+
+    return left == right
diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index c6360cb..a8e58bc 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -20,6 +20,7 @@ from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
+from jsonpath._data import json_equal
 from jsonpath._data import load_data
 from jsonpath.exceptions import JSONPatchError
 from jsonpath.exceptions import JSONPatchTestFailure
@@ -331,7 +332,7 @@ class OpTest(Op):
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
         _, _, obj = _resolve_parent(self.path, data)
-        if not obj == self.value:
+        if not json_equal(obj, self.value):
             raise JSONPatchTestFailure
         return data
 
-- 
2.43.0


From a9f71b04d3b05a3140f795b04cefacaac3566598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 14/50] fix: malformed pointers in patch builders and huge
 indices are patch errors

---
 jsonpath/patch.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index a8e58bc..58dec06 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -54,9 +54,12 @@ def _resolve_parent(pointer: JSONPointer, data: object) -> Tuple[Any, Any, objec
     if isinstance(parent, MutableSequence):
         if part == "-":
             return (parent, len(parent), UNDEFINED)
-        if not RE_ARRAY_INDEX.fullmatch(part) or int(part) > len(parent):
+        try:
+            index = int(part) if RE_ARRAY_INDEX.fullmatch(part) else -1
+        except ValueError:  # too many digits
+            index = -1
+        if index < 0 or index > len(parent):
             return (parent, None, UNDEFINED)
-        index = int(part)
         return (parent, index, parent[index] if index < len(parent) else UNDEFINED)
 
     if isinstance(parent, MutableMapping):
@@ -474,11 +477,14 @@ class JSONPatch:
 
     def _ensure_pointer(self, path: Union[str, JSONPointer]) -> JSONPointer:
         if isinstance(path, str):
-            return JSONPointer(
-                path,
-                unicode_escape=self.unicode_escape,
-                uri_decode=self.uri_decode,
-            )
+            try:
+                return JSONPointer(
+                    path,
+                    unicode_escape=self.unicode_escape,
+                    uri_decode=self.uri_decode,
+                )
+            except JSONPointerError as err:
+                raise JSONPatchError(str(err)) from err
         assert isinstance(path, JSONPointer)
         return path
 
-- 
2.43.0


From 2d2746c32e79cd2e0c9b37412aa12f2f74673e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 15/50] fix: a slice selector selects nothing from a string

---
 jsonpath/selectors.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 44007e9..892104b 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -329,7 +329,11 @@ class SliceSelector(JSONPathSelector):
 
     def resolve(self, matches: Iterable[JSONPathMatch]) -> Iterable[JSONPathMatch]:
         for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
@@ -351,7 +355,11 @@ class SliceSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
-- 
2.43.0


From be79156bdf1888db52e1c6fadebed91ec0bd3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 16/50] fix: the async wildcard selector selects nothing from a
 string

---
 jsonpath/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 892104b..29e222e 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -431,6 +431,8 @@ class WildSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
+            if isinstance(match.obj, str):
+                continue
             if isinstance(match.obj, Mapping):
                 for key, val in match.obj.items():
                     _match = self.env.match_class(
-- 
2.43.0


From fa69780af9ca58007ac99dd83bbb06ea51a8d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 17/50] fix: find the end of a quoted string that ends with an
 escaped backslash

---
 jsonpath/lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4c4422d..08c278f 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -99,8 +99,8 @@ class Lexer:
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
 
-        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:(?!(?<!\\)").)*)"'
-        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:(?!(?<!\\)').)*)'"
+        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:[^"\\]|\\.)*)"'
+        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:[^'\\]|\\.)*)'"
 
         # .thing
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
-- 
2.43.0


From 9da5373e2a3c8ef590368caed805f2c5b17ec15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 18/50] fix: blank space before a descendant segment must not
 swallow its dots

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 08c278f..8ac825f 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -177,7 +177,7 @@ class Lexer:
             (TOKEN_BARE_PROPERTY, self.key_pattern),
             (TOKEN_LPAREN, r"\("),
             (TOKEN_RPAREN, r"\)"),
-            (TOKEN_SKIP, r"[ \n\t\r\.]+"),
+            (TOKEN_SKIP, r"[ \n\t\r]+|\."),
             (TOKEN_ILLEGAL, r"."),
         ]
 
-- 
2.43.0


From 2860c7652d28b61cfffc9086a3b47c0bb64ead00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 19/50] fix: shorthand names may contain characters beyond the
 BMP

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 8ac825f..f6eb1fb 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -85,7 +85,7 @@ class Lexer:
             logical _or_ tokens. By default, `or` and `||` are equivalent.
     """
 
-    key_pattern = r"[\u0080-\uFFFFa-zA-Z_][\u0080-\uFFFFa-zA-Z0-9_-]*"
+    key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
     # `not` or !
     logical_not_pattern = r"(?:not\b)|!"
-- 
2.43.0


From dcd69bd5293ec6c78f6cb190fb6cd70c438e6e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 20/50] fix: only ASCII digits make a number, others may start
 a name

---
 jsonpath/lex.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index f6eb1fb..fd93f9d 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -106,9 +106,9 @@ class Lexer:
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
 
         self.slice_list_pattern = (
-            r"(?P<G_LSLICE_START>\-?\d*)\s*"
-            r":\s*(?P<G_LSLICE_STOP>\-?\d*)\s*"
-            r"(?::\s*(?P<G_LSLICE_STEP>\-?\d*))?"
+            r"(?P<G_LSLICE_START>\-?[0-9]*)\s*"
+            r":\s*(?P<G_LSLICE_STOP>\-?[0-9]*)\s*"
+            r"(?::\s*(?P<G_LSLICE_STEP>\-?[0-9]*))?"
         )
 
         # /pattern/ or /pattern/flags
@@ -139,8 +139,8 @@ class Lexer:
             (TOKEN_LIST_SLICE, self.slice_list_pattern),
             (TOKEN_FUNCTION, self.function_pattern),
             (TOKEN_DOT_PROPERTY, self.dot_property_pattern),
-            (TOKEN_FLOAT, r"-?\d+\.\d*(?:[eE][+-]?\d+)?"),
-            (TOKEN_INT, r"-?\d+(?P<G_EXP>[eE][+\-]?\d+)?\b"),
+            (TOKEN_FLOAT, r"-?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?"),
+            (TOKEN_INT, r"-?[0-9]+(?P<G_EXP>[eE][+\-]?[0-9]+)?\b"),
             (TOKEN_DDOT, r"\.\."),
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
-- 
2.43.0


From d3733f019ab767ca1f4d16140ae8568b17b2acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 21/50] fix: the name after a descendant segment's dots may
 look like a keyword

---
 jsonpath/lex.py   | 16 ++++++++++++++++
 jsonpath/token.py |  1 +
 2 files changed, 17 insertions(+)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index fd93f9d..eba022a 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -14,6 +14,7 @@ from .token import TOKEN_BARE_PROPERTY
 from .token import TOKEN_COMMA
 from .token import TOKEN_CONTAINS
 from .token import TOKEN_DDOT
+from .token import TOKEN_DDOT_PROPERTY
 from .token import TOKEN_DOT_PROPERTY
 from .token import TOKEN_DOUBLE_QUOTE_STRING
 from .token import TOKEN_EQ
@@ -105,6 +106,9 @@ class Lexer:
         # .thing
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
 
+        # ..thing
+        self.ddot_property_pattern = rf"\.\.(?P<G_DDOT_PROP>{self.key_pattern})"
+
         self.slice_list_pattern = (
             r"(?P<G_LSLICE_START>\-?[0-9]*)\s*"
             r":\s*(?P<G_LSLICE_STOP>\-?[0-9]*)\s*"
@@ -139,6 +143,7 @@ class Lexer:
             (TOKEN_LIST_SLICE, self.slice_list_pattern),
             (TOKEN_FUNCTION, self.function_pattern),
             (TOKEN_DOT_PROPERTY, self.dot_property_pattern),
+            (TOKEN_DDOT_PROPERTY, self.ddot_property_pattern),
             (TOKEN_FLOAT, r"-?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?"),
             (TOKEN_INT, r"-?[0-9]+(?P<G_EXP>[eE][+\-]?[0-9]+)?\b"),
             (TOKEN_DDOT, r"\.\."),
@@ -200,6 +205,17 @@ class Lexer:
                     value=match.group("G_PROP"),
                     index=match.start("G_PROP"),
                 )
+            elif kind == TOKEN_DDOT_PROPERTY:
+                yield _token(
+                    kind=TOKEN_DDOT,
+                    value="..",
+                    index=match.start(),
+                )
+                yield _token(
+                    kind=TOKEN_BARE_PROPERTY,
+                    value=match.group("G_DDOT_PROP"),
+                    index=match.start("G_DDOT_PROP"),
+                )
             elif kind == TOKEN_BARE_PROPERTY:
                 yield _token(
                     kind=TOKEN_BARE_PROPERTY,
diff --git a/jsonpath/token.py b/jsonpath/token.py
index a2392e3..9d038a4 100644
--- a/jsonpath/token.py
+++ b/jsonpath/token.py
@@ -11,6 +11,7 @@ TOKEN_SKIP = sys.intern("SKIP")
 TOKEN_COLON = sys.intern("COLON")
 TOKEN_COMMA = sys.intern("COMMA")
 TOKEN_DDOT = sys.intern("DDOT")
+TOKEN_DDOT_PROPERTY = sys.intern("DDOT_PROPERTY")
 TOKEN_DOT = sys.intern("DOT")
 TOKEN_DOT_INDEX = sys.intern("DINDEX")
 TOKEN_DOT_PROPERTY = sys.intern("DOT_PROPERTY")
-- 
2.43.0


From 2a1bd22427af0e06b07950d154f0181964859892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 22/50] fix: sub-queries in filters keep the query argument as
 root and always give nodelists

---
 jsonpath/filter.py | 40 ++++++++++++++++------------------------
 jsonpath/path.py   | 43 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 0f33cff..04378be 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -535,29 +535,16 @@ class SelfPath(Path):
         return "@" + str(self.path)[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
-        return NodeList(self.path.finditer(context.current))
+        return NodeList(self.path.resolve_nested(context.current, context))
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
         return NodeList(
-            [match async for match in await self.path.finditer_async(context.current)]
+            [
+                match
+                async for match in self.path.resolve_nested_async(
+                    context.current, context
+                )
+            ]
         )
 
 
@@ -576,11 +563,14 @@ class RootPath(Path):
         return str(self.path)
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.root))
+        return NodeList(self.path.resolve_nested(context.root, context))
 
     async def evaluate_async(self, context: FilterContext) -> object:
         return NodeList(
-            [match async for match in await self.path.finditer_async(context.root)]
+            [
+                match
+                async for match in self.path.resolve_nested_async(context.root, context)
+            ]
         )
 
 
@@ -600,13 +590,15 @@ class FilterContextPath(Path):
         return "_" + path_repr[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.extra_context))
+        return NodeList(self.path.resolve_nested(context.extra_context, context))
 
     async def evaluate_async(self, context: FilterContext) -> object:
         return NodeList(
             [
                 match
-                async for match in await self.path.finditer_async(context.extra_context)
+                async for match in self.path.resolve_nested_async(
+                    context.extra_context, context
+                )
             ]
         )
 
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 9cf3d98..ceeb0c6 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -26,6 +26,7 @@ if TYPE_CHECKING:
     from io import IOBase
 
     from .env import JSONPathEnvironment
+    from .selectors import FilterContext
     from .selectors import JSONPathSelector
 
 
@@ -141,6 +142,48 @@ class JSONPath:
 
         return matches
 
+    def resolve_nested(
+        self, obj: object, context: FilterContext
+    ) -> Iterable[JSONPathMatch]:
+        """Generate matches for this path when it is nested in a filter expression.
+
+        Arguments:
+            obj: The value this path starts from.
+            context: The context of the enclosing filter expression, from which
+                sub queries inherit the root value and any extra filter context.
+        """
+        matches: Iterable[JSONPathMatch] = [self._nested_root(obj, context)]
+
+        for selector in self.selectors:
+            matches = selector.resolve(matches)
+
+        return matches
+
+    def resolve_nested_async(
+        self, obj: object, context: FilterContext
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `resolve_nested()`."""
+
+        async def root_iter() -> AsyncIterable[JSONPathMatch]:
+            yield self._nested_root(obj, context)
+
+        matches: AsyncIterable[JSONPathMatch] = root_iter()
+
+        for selector in self.selectors:
+            matches = selector.resolve_async(matches)
+
+        return matches
+
+    def _nested_root(self, obj: object, context: FilterContext) -> JSONPathMatch:
+        return self.env.match_class(
+            filter_context=context.extra_context,
+            obj=[obj] if self.fake_root else obj,
+            parent=None,
+            path=self.env.root_token,
+            parts=(),
+            root=context.root,
+        )
+
     async def findall_async(
         self,
         data: Union[str, IOBase, Sequence[Any], Mapping[str, Any]],
-- 
2.43.0


From 1c05770cc908730356867958e8a95a41624d88ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 23/50] fix: filter comparison never identifies a boolean with
 a number

---
 jsonpath/env.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 8980414..55f5256 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -19,6 +19,7 @@ from typing import Type
 from typing import Union
 
 from . import function_extensions
+from ._data import json_equal
 from .exceptions import JSONPathNameError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
@@ -589,18 +590,16 @@ class JSONPathEnvironment:
             return True
 
         # Remember 1 == True and 0 == False in Python
-        if isinstance(right, bool):
-            left, right = right, left
-
-        if isinstance(left, bool):
-            return isinstance(right, bool) and left == right
-
-        return left == right
+        return json_equal(left, right)
 
     def _lt(self, left: object, right: object) -> bool:
         if isinstance(left, str) and isinstance(right, str):
             return left < right
 
+        # Remember a bool is an int in Python
+        if isinstance(left, bool) or isinstance(right, bool):
+            return False
+
         if isinstance(left, (int, float, Decimal)) and isinstance(
             right, (int, float, Decimal)
         ):
-- 
2.43.0


From 12e3eefc45e81883689afc52927777fb226a0cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 24/50] fix: don't round integer literals, nor fail with those
 too big for a float

---
 jsonpath/parse.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index eaef7fc..cf45c41 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -526,8 +526,15 @@ class Parser:
         return StringLiteral(value=self._decode_string_literal(stream.current))
 
     def parse_integer_literal(self, stream: TokenStream) -> FilterExpression:
-        # Convert to float first to handle scientific notation.
-        return IntegerLiteral(value=int(float(stream.current.value)))
+        value = stream.current.value
+        try:
+            # Convert to float first to handle scientific notation.
+            return IntegerLiteral(
+                value=int(float(value)) if "e" in value.lower() else int(value)
+            )
+        except (OverflowError, ValueError):
+            # Too big for an integer, just as when loading JSON.
+            return FloatLiteral(value=float(value))
 
     def parse_float_literal(self, stream: TokenStream) -> FilterExpression:
         return FloatLiteral(value=float(stream.current.value))
-- 
2.43.0


From 30cd92b5dc2baadaf647d77b16db9d425a4c5393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 25/50] fix: malformed or oversized indices and slice bounds
 are JSONPath errors

---
 jsonpath/parse.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index cf45c41..a8d5f8a 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -15,6 +15,7 @@ from typing import Union
 from jsonpath.function_extensions.filter_function import ExpressionType
 from jsonpath.function_extensions.filter_function import FilterFunction
 
+from .exceptions import JSONPathIndexError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
 from .filter import CURRENT_KEY
@@ -226,6 +227,8 @@ class Parser:
         "s": re.S,
     }
 
+    RE_INDEX = re.compile(r"-?[0-9]+")
+
     _INVALID_NAME_SELECTOR_CHARS = f"[{''.join(INVALID_NAME_SELECTOR_CHARS)}]"
     RE_INVALID_NAME_SELECTOR = re.compile(
         rf'(?:(?!(?<!\\)"){_INVALID_NAME_SELECTOR_CHARS})'
@@ -353,29 +356,27 @@ class Parser:
         stream.expect(TOKEN_SLICE_STEP)
         step_token = stream.current
 
-        if not start_token.value:
-            start: Optional[int] = None
-        else:
-            start = int(start_token.value)
-
-        if not stop_token.value:
-            stop: Optional[int] = None
-        else:
-            stop = int(stop_token.value)
-
-        if not step_token.value:
-            step: Optional[int] = None
-        else:
-            step = int(step_token.value)
-
         return SliceSelector(
             env=self.env,
             token=start_token,
-            start=start,
-            stop=stop,
-            step=step,
+            start=self._parse_index(start_token) if start_token.value else None,
+            stop=self._parse_index(stop_token) if stop_token.value else None,
+            step=self._parse_index(step_token) if step_token.value else None,
         )
 
+    def _parse_index(self, token: Token) -> int:
+        """Return the integer spelled by _token_, an array index or slice bound."""
+        if not self.RE_INDEX.fullmatch(token.value):
+            raise JSONPathSyntaxError(
+                f"expected an integer, found {token.value!r}", token=token
+            )
+
+        try:
+            return int(token.value)
+        except ValueError as err:
+            # Too many digits for Python.
+            raise JSONPathIndexError("index out of range", token=token) from err
+
     def parse_selector_list(self, stream: TokenStream) -> ListSelector:  # noqa: PLR0912
         """Parse a comma separated list JSONPath selectors from a stream of tokens."""
         tok = stream.next_token()
@@ -403,7 +404,7 @@ class Parser:
                     IndexSelector(
                         env=self.env,
                         token=stream.current,
-                        index=int(stream.current.value),
+                        index=self._parse_index(stream.current),
                     )
                 )
             elif stream.current.kind == TOKEN_BARE_PROPERTY:
-- 
2.43.0


From 27e76a8cb293293399a79641a3b52c005b9d81e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 26/50] fix: compound queries intersect with every operand and
 read files once

---
 jsonpath/path.py | 89 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 32 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index ceeb0c6..d1a23fb 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -14,6 +14,7 @@ from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
+from jsonpath._data import json_equal
 from jsonpath._data import load_data
 from jsonpath.fluent_api import Query
 from jsonpath.match import FilterContextVars
@@ -125,7 +126,11 @@ class JSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        _data = load_data(data)
+        return self._finditer(load_data(data), filter_context)
+
+    def _finditer(
+        self, _data: Any, filter_context: Optional[FilterContextVars]
+    ) -> Iterable[JSONPathMatch]:
         matches: Iterable[JSONPathMatch] = [
             JSONPathMatch(
                 filter_context=filter_context or {},
@@ -205,8 +210,11 @@ class JSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
-        _data = load_data(data)
+        return await self._finditer_async(load_data(data), filter_context)
 
+    async def _finditer_async(
+        self, _data: Any, filter_context: Optional[FilterContextVars]
+    ) -> AsyncIterable[JSONPathMatch]:
         async def root_iter() -> AsyncIterable[JSONPathMatch]:
             yield self.env.match_class(
                 filter_context=filter_context or {},
@@ -356,17 +364,9 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        objs = self.path.findall(data, filter_context=filter_context)
-
-        for op, path in self.paths:
-            _objs = path.findall(data, filter_context=filter_context)
-            if op == self.env.union_token:
-                objs.extend(_objs)
-            else:
-                assert op == self.env.intersection_token, op
-                objs = [obj for obj in objs if obj in _objs]
-
-        return objs
+        return [
+            match.obj for match in self.finditer(data, filter_context=filter_context)
+        ]
 
     def finditer(
         self,
@@ -393,16 +393,20 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        matches = self.path.finditer(data, filter_context=filter_context)
+        return self._finditer(load_data(data), filter_context)
+
+    def _finditer(
+        self, _data: Any, filter_context: Optional[FilterContextVars]
+    ) -> Iterable[JSONPathMatch]:
+        matches = self.path._finditer(_data, filter_context)  # noqa: SLF001
 
         for op, path in self.paths:
-            _matches = path.finditer(data, filter_context=filter_context)
+            _matches = path._finditer(_data, filter_context)  # noqa: SLF001
             if op == self.env.union_token:
                 matches = itertools.chain(matches, _matches)
             else:
                 assert op == self.env.intersection_token
-                _objs = [match.obj for match in _matches]
-                matches = (match for match in matches if match.obj in _objs)
+                matches = _intersection(matches, [match.obj for match in _matches])
 
         return matches
 
@@ -443,17 +447,12 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> List[object]:
         """An async version of `findall()`."""
-        objs = await self.path.findall_async(data, filter_context=filter_context)
-
-        for op, path in self.paths:
-            _objs = await path.findall_async(data, filter_context=filter_context)
-            if op == self.env.union_token:
-                objs.extend(_objs)
-            else:
-                assert op == self.env.intersection_token
-                objs = [obj for obj in objs if obj in _objs]
-
-        return objs
+        return [
+            match.obj
+            async for match in await self.finditer_async(
+                data, filter_context=filter_context
+            )
+        ]
 
     async def finditer_async(
         self,
@@ -462,16 +461,26 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
-        matches = await self.path.finditer_async(data, filter_context=filter_context)
+        return await self._finditer_async(load_data(data), filter_context)
+
+    async def _finditer_async(
+        self, _data: Any, filter_context: Optional[FilterContextVars]
+    ) -> AsyncIterable[JSONPathMatch]:
+        matches = await self.path._finditer_async(  # noqa: SLF001
+            _data, filter_context
+        )
 
         for op, path in self.paths:
-            _matches = await path.finditer_async(data, filter_context=filter_context)
+            _matches = await path._finditer_async(  # noqa: SLF001
+                _data, filter_context
+            )
             if op == self.env.union_token:
                 matches = _achain(matches, _matches)
             else:
                 assert op == self.env.intersection_token
-                _objs = [match.obj async for match in _matches]
-                matches = (match async for match in matches if match.obj in _objs)
+                matches = _aintersection(
+                    matches, [match.obj async for match in _matches]
+                )
 
         return matches
 
@@ -523,3 +532,19 @@ async def _achain(*iterables: AsyncIterable[T]) -> AsyncIterable[T]:
     for it in iterables:
         async for element in it:
             yield element
+
+
+def _intersection(
+    matches: Iterable[JSONPathMatch], objs: List[object]
+) -> Iterable[JSONPathMatch]:
+    for match in matches:
+        if any(json_equal(match.obj, obj) for obj in objs):
+            yield match
+
+
+async def _aintersection(
+    matches: AsyncIterable[JSONPathMatch], objs: List[object]
+) -> AsyncIterable[JSONPathMatch]:
+    async for match in matches:
+        if any(json_equal(match.obj, obj) for obj in objs):
+            yield match
-- 
2.43.0


From 2a125996903fdbfe4d38e93b9edb521afcc021ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:52 +0000
Subject: [PATCH 27/50] fix: projections don't patch the document and keep
 arrays in order

---
 jsonpath/fluent_api.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index 4329e08..04a7c62 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -266,12 +266,28 @@ def _patch_obj(
         if part not in _obj:
             _obj[part] = {}  # type: ignore
         _obj = _obj[part]
+        if isinstance(_obj, _Selected):
+            # An ancestor has already been selected, so _value_ is in it. It
+            # belongs to the target document and must not be patched.
+            return
 
-    _obj[parts[-1]] = value  # type: ignore
+    _obj[parts[-1]] = _Selected(value)  # type: ignore
+
+
+class _Selected:
+    """A value selected from the target document, as it appears in a projection."""
+
+    __slots__ = ("value",)
+
+    def __init__(self, value: object) -> None:
+        self.value = value
 
 
 def _fix_sparse_arrays(obj: Any) -> object:
     """Fix sparse arrays (dictionaries with integer keys)."""
+    if isinstance(obj, _Selected):
+        return _fix_sparse_arrays(obj.value)
+
     if isinstance(obj, str) or not obj:
         return obj
 
@@ -280,7 +296,7 @@ def _fix_sparse_arrays(obj: Any) -> object:
 
     if isinstance(obj, Mapping):
         if isinstance(next(iter(obj)), int):
-            return [_fix_sparse_arrays(v) for v in obj.values()]
+            return [_fix_sparse_arrays(obj[i]) for i in sorted(obj)]
         return {k: _fix_sparse_arrays(v) for k, v in obj.items()}
 
     return obj
-- 
2.43.0


From 3f6171cf8ad8a5199baf7a7729ea11d7327d5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:57 +0000
Subject: [PATCH 28/50] fix: operands of <> must be comparable

---
 jsonpath/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index a8d5f8a..9bf4a2e 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -194,6 +194,7 @@ class Parser:
             "<=",
             "<",
             "!=",
+            "<>",
             "=~",
         ]
     )
-- 
2.43.0


From f6999e5273e15fa4e2fd4580055d3123ab6dcc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 29/50] fix: values must be compared at every position of a
 logical expression

---
 jsonpath/parse.py | 61 +++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 9bf4a2e..2c9d71b 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -493,24 +493,7 @@ class Parser:
         tok = stream.next_token()
         expr = self.parse_filter_selector(stream)
 
-        if self.env.well_typed and isinstance(expr, FunctionExtension):
-            func = self.env.function_extensions.get(expr.name)
-            if (
-                func
-                and isinstance(func, FilterFunction)
-                and func.return_type == ExpressionType.VALUE
-            ):
-                raise JSONPathTypeError(
-                    f"result of {expr.name}() must be compared", token=tok
-                )
-
-        if isinstance(expr, (Literal, Nil)):
-            raise JSONPathSyntaxError(
-                "filter expression literals outside of "
-                "function expressions must be compared",
-                token=tok,
-            )
-
+        self._raise_for_uncompared_expression(expr, tok)
         return Filter(env=self.env, token=tok, expression=BooleanExpression(expr))
 
     def parse_boolean(self, stream: TokenStream) -> FilterExpression:
@@ -544,10 +527,9 @@ class Parser:
     def parse_prefix_expression(self, stream: TokenStream) -> FilterExpression:
         tok = stream.next_token()
         assert tok.kind == TOKEN_NOT
-        return PrefixExpression(
-            operator="!",
-            right=self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX),
-        )
+        right = self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX)
+        self._raise_for_uncompared_expression(right, tok)
+        return PrefixExpression(operator="!", right=right)
 
     def parse_infix_expression(
         self, stream: TokenStream, left: FilterExpression
@@ -562,18 +544,8 @@ class Parser:
             self._raise_for_non_comparable_function(right, tok)
 
         if operator not in self.INFIX_LITERAL_OPERATORS:
-            if isinstance(left, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
-            if isinstance(right, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
+            self._raise_for_uncompared_expression(left, tok)
+            self._raise_for_uncompared_expression(right, tok)
 
         return InfixExpression(left, operator, right)
 
@@ -734,6 +706,27 @@ class Parser:
 
         return token.value
 
+    def _raise_for_uncompared_expression(
+        self, expr: FilterExpression, token: Token
+    ) -> None:
+        """Raise an error if _expr_ is not a test but a value to be compared."""
+        if isinstance(expr, (Literal, Nil)):
+            raise JSONPathSyntaxError(
+                "filter expression literals outside of "
+                "function expressions must be compared",
+                token=token,
+            )
+
+        if self.env.well_typed and isinstance(expr, FunctionExtension):
+            func = self.env.function_extensions.get(expr.name)
+            if (
+                isinstance(func, FilterFunction)
+                and func.return_type == ExpressionType.VALUE
+            ):
+                raise JSONPathTypeError(
+                    f"result of {expr.name}() must be compared", token=token
+                )
+
     def _raise_for_non_comparable_function(
         self, expr: FilterExpression, token: Token
     ) -> None:
-- 
2.43.0


From f735ec78d3cc81e5ffd19f5248d252bcc424215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 30/50] fix: any logical expression or test function is a
 logical function argument

---
 jsonpath/env.py   | 11 ++++++++++-
 jsonpath/parse.py | 10 ++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 55f5256..a48a0be 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -25,10 +25,12 @@ from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
 from .filter import UNDEFINED
 from .filter import VALUE_TYPE_EXPRESSIONS
+from .filter import BooleanExpression
 from .filter import FilterExpression
 from .filter import FunctionExtension
 from .filter import InfixExpression
 from .filter import Path
+from .filter import PrefixExpression
 from .fluent_api import Query
 from .function_extensions import ExpressionType
 from .function_extensions import FilterFunction
@@ -465,7 +467,14 @@ class JSONPathEnvironment:
                         token=token,
                     )
             elif typ == ExpressionType.LOGICAL:
-                if not isinstance(arg, (Path, InfixExpression)):
+                if not (
+                    isinstance(
+                        arg,
+                        (BooleanExpression, InfixExpression, Path, PrefixExpression),
+                    )
+                    or self._function_return_type(arg)
+                    in (ExpressionType.LOGICAL, ExpressionType.NODES)
+                ):
                     raise JSONPathTypeError(
                         f"{token.value}() argument {idx} must be of LogicalType",
                         token=token,
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 2c9d71b..da6213a 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -285,8 +285,10 @@ class Parser:
             TOKEN_FUNCTION: self.parse_function_extension,
             TOKEN_INT: self.parse_integer_literal,
             TOKEN_KEY: self.parse_current_key,
+            TOKEN_LPAREN: self.parse_grouped_expression,
             TOKEN_NIL: self.parse_nil,
             TOKEN_NONE: self.parse_nil,
+            TOKEN_NOT: self.parse_prefix_expression,
             TOKEN_NULL: self.parse_nil,
             TOKEN_ROOT: self.parse_root_path,
             TOKEN_SELF: self.parse_self_path,
@@ -639,8 +641,16 @@ class Parser:
                     token=stream.current,
                 ) from err
 
+            grouped = stream.current
             expr = func(stream)
 
+            if grouped.kind == TOKEN_LPAREN and isinstance(
+                expr, (FunctionExtension, Literal, Nil, Path)
+            ):
+                # It's a test, not a value or nodes.
+                self._raise_for_uncompared_expression(expr, grouped)
+                expr = BooleanExpression(expr)
+
             # The argument could be a comparison or logical expression
             peek_kind = stream.peek.kind
             while peek_kind in self.BINARY_OPERATORS:
-- 
2.43.0


From 5dddc09ca4ae7a3a2489d798cb8d8ca923498518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 31/50] fix: membership operators never fail and never confuse
 booleans or absent values

---
 jsonpath/env.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index a48a0be..0a7e990 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -10,6 +10,7 @@ from typing import Any
 from typing import AsyncIterable
 from typing import Callable
 from typing import Dict
+from typing import Hashable
 from typing import Iterable
 from typing import List
 from typing import Mapping
@@ -574,14 +575,26 @@ class JSONPathEnvironment:
             return self._lt(right, left) or self._eq(left, right)
         if operator == "<=":
             return self._lt(left, right) or self._eq(left, right)
-        if operator == "in" and isinstance(right, (Mapping, Sequence)):
-            return left in right
-        if operator == "contains" and isinstance(left, (Mapping, Sequence)):
-            return right in left
+        if operator == "in":
+            return self._contains(right, left)
+        if operator == "contains":
+            return self._contains(left, right)
         if operator == "=~" and isinstance(right, re.Pattern) and isinstance(left, str):
             return bool(right.fullmatch(left))
         return False
 
+    def _contains(self, obj: object, item: object) -> bool:
+        """Return `True` if _item_ is an element, member name or substring of _obj_."""
+        if item is UNDEFINED or isinstance(item, NodeList):
+            return False
+        if isinstance(obj, str):
+            return isinstance(item, str) and item in obj
+        if isinstance(obj, Mapping):
+            return isinstance(item, Hashable) and item in obj
+        if isinstance(obj, Sequence) and not isinstance(obj, NodeList):
+            return any(self._eq(item, element) for element in obj)
+        return False
+
     def _eq(self, left: object, right: object) -> bool:  # noqa: PLR0911
         if isinstance(right, NodeList):
             left, right = right, left
-- 
2.43.0


From b89df30607e6977be7055728b9ff6e3c292dae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:35 +0000
Subject: [PATCH 32/50] fix: reserved words and identifiers don't match the
 start of a name

---
 jsonpath/lex.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index eba022a..3359d5c 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -88,14 +88,20 @@ class Lexer:
 
     key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
+    # The end of a word that is an operator, maybe followed by a negative number.
+    operator_end = r"(?![\u0080-\U0010FFFFa-zA-Z0-9_]|-(?![0-9]))"
+
+    # The end of any other word.
+    word_end = r"(?![\u0080-\U0010FFFFa-zA-Z0-9_-])"
+
     # `not` or !
-    logical_not_pattern = r"(?:not\b)|!"
+    logical_not_pattern = rf"(?:not{operator_end})|!"
 
     # && or `and`
-    logical_and_pattern = r"&&|(?:and\b)"
+    logical_and_pattern = rf"&&|(?:and{operator_end})"
 
     # || or `or`
-    logical_or_pattern = r"\|\||(?:or\b)"
+    logical_or_pattern = rf"\|\||(?:or{operator_end})"
 
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
@@ -150,7 +156,7 @@ class Lexer:
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
             *[
-                (token, re.escape(pattern))
+                (token, self._env_token_pattern(pattern))
                 for token, pattern in sorted(
                     env_tokens, key=lambda x: len(x[1]), reverse=True
                 )
@@ -158,15 +164,15 @@ class Lexer:
             ],
             (TOKEN_WILD, r"\*"),
             (TOKEN_FILTER, r"\?"),
-            (TOKEN_IN, r"in\b"),
-            (TOKEN_TRUE, r"[Tt]rue\b"),
-            (TOKEN_FALSE, r"[Ff]alse\b"),
-            (TOKEN_NIL, r"[Nn]il\b"),
-            (TOKEN_NULL, r"[Nn]ull\b"),
-            (TOKEN_NONE, r"[Nn]one\b"),
-            (TOKEN_CONTAINS, r"contains\b"),
-            (TOKEN_UNDEFINED, r"undefined\b"),
-            (TOKEN_MISSING, r"missing\b"),
+            (TOKEN_IN, rf"in{self.operator_end}"),
+            (TOKEN_TRUE, rf"[Tt]rue{self.word_end}"),
+            (TOKEN_FALSE, rf"[Ff]alse{self.word_end}"),
+            (TOKEN_NIL, rf"[Nn]il{self.word_end}"),
+            (TOKEN_NULL, rf"[Nn]ull{self.word_end}"),
+            (TOKEN_NONE, rf"[Nn]one{self.word_end}"),
+            (TOKEN_CONTAINS, rf"contains{self.operator_end}"),
+            (TOKEN_UNDEFINED, rf"undefined{self.word_end}"),
+            (TOKEN_MISSING, rf"missing{self.word_end}"),
             (TOKEN_LIST_START, r"\["),
             (TOKEN_RBRACKET, r"]"),
             (TOKEN_COMMA, r","),
@@ -191,6 +197,13 @@ class Lexer:
             re.DOTALL,
         )
 
+    def _env_token_pattern(self, token: str) -> str:
+        """Return a pattern matching an identifier configured by the environment."""
+        if re.match(self.word_end, token[-1]):
+            return re.escape(token)
+        # It must not be the start of a name.
+        return re.escape(token) + self.word_end
+
     def tokenize(self, path: str) -> Iterator[Token]:  # noqa PLR0912
         """Generate a sequence of tokens from a JSONPath string."""
         _token = partial(Token, path=path)
-- 
2.43.0


From a6305d0b9648db6d5e908b5a77a180bcdf0201fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:38 +0000
Subject: [PATCH 33/50] fix: word operators may be followed by a parenthesis

---
 jsonpath/lex.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 3359d5c..56ec908 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -125,7 +125,13 @@ class Lexer:
         self.re_pattern = r"/(?P<G_RE>.+?)/(?P<G_RE_FLAGS>[aims]*)"
 
         # func(
-        self.function_pattern = r"(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        # `not(`, `and(` and `or(` start a group.
+        self.function_pattern = (
+            rf"(?!{self.logical_not_pattern}"
+            rf"|{self.logical_and_pattern}"
+            rf"|{self.logical_or_pattern})"
+            r"(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        )
 
         self.rules = self.compile_rules()
 
-- 
2.43.0


From 0eb4d4a28d4b71ff07d72b7d2b38049d31812d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:43 +0000
Subject: [PATCH 34/50] fix: regular expression literals may contain escaped
 slashes

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 56ec908..74be8f2 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -122,7 +122,7 @@ class Lexer:
         )
 
         # /pattern/ or /pattern/flags
-        self.re_pattern = r"/(?P<G_RE>.+?)/(?P<G_RE_FLAGS>[aims]*)"
+        self.re_pattern = r"/(?P<G_RE>(?:[^/\\]|\\.)+)/(?P<G_RE_FLAGS>[aims]*)"
 
         # func(
         # `not(`, `and(` and `or(` start a group.
-- 
2.43.0


From a035fecc9e24446944fef713a1aab26b8fc51acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:01 +0000
Subject: [PATCH 35/50] fix: the <> operator means not equal

---
 jsonpath/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 0a7e990..7cc84b9 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -565,7 +565,7 @@ class JSONPathEnvironment:
             return self.is_truthy(left) or self.is_truthy(right)
         if operator == "==":
             return self._eq(left, right)
-        if operator == "!=":
+        if operator in ("!=", "<>"):
             return not self._eq(left, right)
         if operator == "<":
             return self._lt(left, right)
-- 
2.43.0


From 48b575b36c616c6bf8d8a8f68bfc9768c6ef8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 36/50] fix: the string form of a query keeps the fake root

---
 jsonpath/path.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index d1a23fb..fa3d7e5 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -61,9 +61,8 @@ class JSONPath:
         self.fake_root = fake_root
 
     def __str__(self) -> str:
-        return self.env.root_token + "".join(
-            str(selector) for selector in self.selectors
-        )
+        root = self.env.fake_root_token if self.fake_root else self.env.root_token
+        return root + "".join(str(selector) for selector in self.selectors)
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From 9c3f2fe4627c2defa90adddc2a9eaf7a31592102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 37/50] fix: keep the parentheses of negated and nested
 comparisons in string forms

---
 jsonpath/filter.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 04378be..44a5711 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -286,7 +286,7 @@ class PrefixExpression(FilterExpression):
         super().__init__()
 
     def __str__(self) -> str:
-        return f"{self.operator}{self.right}"
+        return f"{self.operator}{_operand_string(self.right)}"
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -334,7 +334,9 @@ class InfixExpression(FilterExpression):
     def __str__(self) -> str:
         if self.logical:
             return f"({self.left} {self.operator} {self.right})"
-        return f"{self.left} {self.operator} {self.right}"
+        left = _operand_string(self.left)
+        right = _operand_string(self.right)
+        return f"{left} {self.operator} {right}"
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -375,6 +377,13 @@ class InfixExpression(FilterExpression):
         self.right = children[1]
 
 
+def _operand_string(operand: FilterExpression) -> str:
+    """Return the string form of _operand_, grouped if it's a comparison."""
+    if isinstance(operand, InfixExpression) and not operand.logical:
+        return f"({operand})"
+    return str(operand)
+
+
 PRECEDENCE_LOWEST = 1
 PRECEDENCE_LOGICAL_OR = 3
 PRECEDENCE_LOGICAL_AND = 4
@@ -446,6 +455,9 @@ class BooleanExpression(FilterExpression):
             expr = f"!{operand}"
             return f"({expr})" if parent_precedence > PRECEDENCE_PREFIX else expr
 
+        if parent_precedence >= PRECEDENCE_PREFIX:
+            return _operand_string(expression)
+
         return str(expression)
 
     def evaluate(self, context: FilterContext) -> bool:
-- 
2.43.0


From a2077e794134f74bd28d8c2bde4270d7e4e2873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 38/50] fix: float literals in string forms are read back as
 the same floats

---
 jsonpath/filter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 44a5711..a1c4918 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import math
 import re
 from abc import ABC
 from abc import abstractmethod
@@ -222,6 +223,13 @@ class FloatLiteral(Literal[float]):
 
     __slots__ = ()
 
+    def __str__(self) -> str:
+        if math.isinf(self.value):
+            return "1e400" if self.value > 0 else "-1e400"
+        value = repr(self.value)
+        # Without a fraction it would be an integer literal.
+        return value if "." in value else value.replace("e", ".0e")
+
 
 class RegexLiteral(Literal[Pattern[str]]):
     """A regex literal."""
-- 
2.43.0


From f5ef1438a2a601a974c0d2d54b08e829117cf8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 39/50] fix: keep the parentheses of logical function arguments
 in string forms

---
 jsonpath/filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index a1c4918..1710720 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -634,7 +634,10 @@ class FunctionExtension(FilterExpression):
         super().__init__()
 
     def __str__(self) -> str:
-        args = [str(arg) for arg in self.args]
+        args = [
+            f"({arg})" if isinstance(arg, BooleanExpression) else str(arg)
+            for arg in self.args
+        ]
         return f"{self.name}({', '.join(args)})"
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 8a4c8c08b54892868dc4d132b280b1fcd389d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 40/50] fix: string forms use the environment's identifier
 tokens

---
 jsonpath/filter.py | 12 ++++++------
 jsonpath/parse.py  |  4 ++--
 jsonpath/path.py   |  6 +++++-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 1710720..5de5c05 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -552,7 +552,7 @@ class SelfPath(Path):
         self.volatile = True
 
     def __str__(self) -> str:
-        return "@" + str(self.path)[1:]
+        return self.path.env.self_token + self.path.selectors_string()
 
     def evaluate(self, context: FilterContext) -> object:
         return NodeList(self.path.resolve_nested(context.current, context))
@@ -606,8 +606,7 @@ class FilterContextPath(Path):
         self.volatile = False
 
     def __str__(self) -> str:
-        path_repr = str(self.path)
-        return "_" + path_repr[1:]
+        return self.path.env.filter_context_token + self.path.selectors_string()
 
     def evaluate(self, context: FilterContext) -> object:
         return NodeList(self.path.resolve_nested(context.extra_context, context))
@@ -709,14 +708,15 @@ class FunctionExtension(FilterExpression):
 class CurrentKey(FilterExpression):
     """The key/property or index associated with the current object."""
 
-    __slots__ = ()
+    __slots__ = ("token",)
 
-    def __init__(self) -> None:
+    def __init__(self, token: str = "#") -> None:
+        self.token = token
         super().__init__()
         self.volatile = True
 
     def __str__(self) -> str:
-        return "#"
+        return self.token
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, CurrentKey)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index da6213a..8537f8e 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -18,12 +18,12 @@ from jsonpath.function_extensions.filter_function import FilterFunction
 from .exceptions import JSONPathIndexError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
-from .filter import CURRENT_KEY
 from .filter import FALSE
 from .filter import NIL
 from .filter import TRUE
 from .filter import UNDEFINED_LITERAL
 from .filter import BooleanExpression
+from .filter import CurrentKey
 from .filter import FilterContextPath
 from .filter import FilterExpression
 from .filter import FloatLiteral
@@ -590,7 +590,7 @@ class Parser:
         )
 
     def parse_current_key(self, _: TokenStream) -> FilterExpression:
-        return CURRENT_KEY
+        return CurrentKey(self.env.key_token)
 
     def parse_filter_context_path(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
diff --git a/jsonpath/path.py b/jsonpath/path.py
index fa3d7e5..d363add 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -62,7 +62,11 @@ class JSONPath:
 
     def __str__(self) -> str:
         root = self.env.fake_root_token if self.fake_root else self.env.root_token
-        return root + "".join(str(selector) for selector in self.selectors)
+        return root + self.selectors_string()
+
+    def selectors_string(self) -> str:
+        """Return the string form of this path's selectors, without a root."""
+        return "".join(str(selector) for selector in self.selectors)
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From 9e1920a2c94cf31ccc114253e195254a379ada21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 41/50] fix: raise a syntax error for invalid regular
 expression literals

---
 jsonpath/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 8537f8e..6d585bd 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -599,13 +599,18 @@ class Parser:
         )
 
     def parse_regex(self, stream: TokenStream) -> FilterExpression:
-        pattern = stream.current.value
+        tok = stream.current
         flags = 0
         if stream.peek.kind == TOKEN_RE_FLAGS:
             stream.next_token()
             for flag in set(stream.current.value):
                 flags |= self.RE_FLAG_MAP[flag]
-        return RegexLiteral(value=re.compile(pattern, flags))
+        try:
+            return RegexLiteral(value=re.compile(tok.value, flags))
+        except (OverflowError, RecursionError, ValueError, re.error) as err:
+            raise JSONPathSyntaxError(
+                f"invalid regular expression: {err}", token=tok
+            ) from err
 
     def parse_list_literal(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
-- 
2.43.0


From 331bd96e3d35d03350bddc82a2f115ba95d0881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 42/50] fix: match() and search() return false for every
 invalid pattern

---
 jsonpath/function_extensions/match.py  | 2 +-
 jsonpath/function_extensions/search.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/function_extensions/match.py b/jsonpath/function_extensions/match.py
index 7bc8749..39cf4d6 100644
--- a/jsonpath/function_extensions/match.py
+++ b/jsonpath/function_extensions/match.py
@@ -17,5 +17,5 @@ class Match(FilterFunction):
         try:
             # re.fullmatch caches compiled patterns internally
             return bool(re.fullmatch(pattern, string))
-        except (TypeError, re.error):
+        except (OverflowError, RecursionError, TypeError, ValueError, re.error):
             return False
diff --git a/jsonpath/function_extensions/search.py b/jsonpath/function_extensions/search.py
index ed88635..bd4a2d0 100644
--- a/jsonpath/function_extensions/search.py
+++ b/jsonpath/function_extensions/search.py
@@ -17,5 +17,5 @@ class Search(FilterFunction):
         try:
             # re.search caches compiled patterns internally
             return bool(re.search(pattern, string))
-        except (TypeError, re.error):
+        except (OverflowError, RecursionError, TypeError, ValueError, re.error):
             return False
-- 
2.43.0


From 6280d903390b4636f6ee43a365fc08bbb742c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 43/50] fix: raise a JSONPath type error when a function is not
 given the nodes it needs

---
 jsonpath/filter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 5de5c05..9c0bfe0 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -684,6 +684,13 @@ class FunctionExtension(FilterExpression):
                         # would have been rejected when checking function
                         # well-typedness.
                         _args.append(arg)
+                elif func.arg_types[idx] == ExpressionType.NODES and not isinstance(
+                    arg, NodeList
+                ):
+                    # Only possible if well-typedness has not been checked.
+                    raise JSONPathTypeError(
+                        f"{self.name}() argument {idx} must be of NodesType"
+                    )
                 else:
                     _args.append(arg)
             return _args
-- 
2.43.0


From 70ede83434667747f008d115ee537b83eb4d8133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 44/50] fix: raise a relative pointer error for offsets from
 indices with too many digits

---
 jsonpath/pointer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 03081d4..9351d72 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -596,12 +596,17 @@ class RelativeJSONPointer:
 
         # Array index offset
         if self.index and parts and self._int_like(parts[-1]):
-            new_index = int(parts[-1]) + self.index
+            try:
+                new_index = int(parts[-1]) + self.index
+            except ValueError as err:  # too many digits
+                raise RelativeJSONPointerIndexError(
+                    "index offset out of range"
+                ) from err
             if new_index < 0:
                 raise RelativeJSONPointerIndexError(
                     f"index offset out of range {new_index}"
                 )
-            parts[-1] = int(parts[-1]) + self.index
+            parts[-1] = new_index
 
         # Pointer or index/property
         if isinstance(self.pointer, JSONPointer):
-- 
2.43.0


From 7dff06ca4574714564b34d8270e08f25379b091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 45/50] fix: read the query from the file given to `json path
 --path-file`

---
 jsonpath/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index e79d2fd..872332e 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -242,7 +242,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     if args.query is not None:
         query = args.query
     else:
-        query = args.query_file.read().strip()
+        query = args.path_file.read().strip()
 
     try:
         path = jsonpath.JSONPathEnvironment(
-- 
2.43.0


From 06e5e1d6c81bf678f37f91f90e5d187e0ce4ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 46/50] fix: report unknown functions and run-time query errors
 from `json path` without a traceback

---
 jsonpath/cli.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 872332e..df01321 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -6,7 +6,9 @@ import sys
 import jsonpath
 from jsonpath.__about__ import __version__
 from jsonpath.exceptions import JSONPatchError
+from jsonpath.exceptions import JSONPathError
 from jsonpath.exceptions import JSONPathIndexError
+from jsonpath.exceptions import JSONPathNameError
 from jsonpath.exceptions import JSONPathSyntaxError
 from jsonpath.exceptions import JSONPathTypeError
 from jsonpath.exceptions import JSONPointerError
@@ -264,6 +266,11 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path index error: {err}\n")
         sys.exit(1)
+    except JSONPathNameError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path name error: {err}\n")
+        sys.exit(1)
 
     try:
         matches = path.findall(args.file)
@@ -278,6 +285,11 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path type error: {err}\n")
         sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
-- 
2.43.0


From 175d05b89c76749188064dd7e10d0a24ca3c2456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 47/50] fix: report documents that can't be decoded from the
 command line without a traceback

---
 jsonpath/cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index df01321..9f9559b 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -15,6 +15,10 @@ from jsonpath.exceptions import JSONPointerError
 
 INDENT = 2
 
+# Besides malformed JSON, a document might not be valid UTF-8, contain an integer
+# with too many digits or be nested too deeply.
+DECODE_ERRORS = (ValueError, RecursionError)
+
 
 def path_sub_command(parser: argparse.ArgumentParser) -> None:  # noqa: D103
     parser.set_defaults(func=handle_path_command)
@@ -274,7 +278,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
 
     try:
         matches = path.findall(args.file)
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -311,7 +315,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -330,7 +334,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     """Handle the `patch` sub command."""
     try:
         patch = json.load(args.patch)
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"patch document json decode error: {err}\n")
@@ -349,7 +353,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except DECODE_ERRORS as err:
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
-- 
2.43.0


From 36b06223529bc09894301664ebdd57e36e224e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 48/50] fix: keep significant white space when reading a query
 or pointer from a file

---
 jsonpath/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 9f9559b..d415daf 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -248,7 +248,8 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     if args.query is not None:
         query = args.query
     else:
-        query = args.path_file.read().strip()
+        # Other Unicode white space can be part of a shorthand name.
+        query = args.path_file.read().strip(" \t\n\r")
 
     try:
         path = jsonpath.JSONPathEnvironment(
@@ -306,7 +307,8 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
         pointer = args.pointer
     else:
         # TODO: is a property with a trailing newline OK?
-        pointer = args.pointer_file.read().strip()
+        # Any other white space can be part of a property name.
+        pointer = args.pointer_file.read().rstrip("\r\n")
 
     try:
         match = jsonpath.pointer.resolve(
-- 
2.43.0


From cf7422b7bb84aef2aa8c0e5e81e96eef3d4879f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 49/50] fix: write command line pointer and patch errors as one
 line

---
 jsonpath/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index d415daf..a64e3c2 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -325,7 +325,8 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
     except JSONPointerError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
+        # Pointers and operation names can contain line breaks.
+        sys.stderr.write(" ".join(str(err).splitlines()) + "\n")
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
@@ -363,7 +364,8 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     except JSONPatchError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
+        # Pointers and operation names can contain line breaks.
+        sys.stderr.write(" ".join(str(err).splitlines()) + "\n")
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-- 
2.43.0


From ab1fa3095e8d9c375924a1c3c9937c0939b12a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 50/50] fix: write deeply nested results from the command line

json.dump() recurses in Python and hits the recursion limit on documents that
json.loads() and json.dumps() handle.
---
 jsonpath/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index a64e3c2..85e0cf5 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -297,7 +297,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-    json.dump(matches, args.output, indent=indent)
+    args.output.write(json.dumps(matches, indent=indent))
 
 
 def handle_pointer_command(args: argparse.Namespace) -> None:
@@ -330,7 +330,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-    json.dump(match, args.output, indent=indent)
+    args.output.write(json.dumps(match, indent=indent))
 
 
 def handle_patch_command(args: argparse.Namespace) -> None:
@@ -369,7 +369,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
         sys.exit(1)
 
     indent = INDENT if args.pretty else None
-    json.dump(patched, args.output, indent=indent)
+    args.output.write(json.dumps(patched, indent=indent))
 
 
 def main() -> None:
-- 
2.43.0

