From 546914a30440cc77f0ed970bef80b5fb1bcbc0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 001/116] fix: insert_after returns the index of the new entry

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 0d9a575..1b94988 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -941,7 +941,7 @@ class ArrayEntry(InstanceNode):
         nbef = self.before.copy()
         nbef.appendleft(self.value)
         return ArrayEntry(
-            self.index, nbef, self.after, self._cook_value(value, raw),
+            self.index + 1, nbef, self.after, self._cook_value(value, raw),
             self.parinst, self.schema_node, datetime.now())
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
-- 
2.43.0


From eb7db62062ae6a3eb0ae0a445020efbb7f32e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 002/116] fix: merge no longer modifies the receiver's value in
 place

---
 yangson/instance.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1b94988..d000f44 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -322,9 +322,8 @@ class InstanceNode:
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
         inst = self._copy(self.value)
         if isinstance(self.schema_node, LeafListNode):
-            inst.value += [
-                en for en in value if en in set(value) - set(self.value)]
-            return inst
+            return inst._copy(ArrayValue(inst.value + [
+                en for en in value if en in set(value) - set(self.value)]))
         keys = self.schema_node._key_members
         mki = {}
         for i in range(len(value)):
@@ -334,8 +333,8 @@ class InstanceNode:
             if kval in mki:
                 inst = inst[i].merge(value[mki[kval]]).up()
                 del mki[kval]
-        inst.value += [value[i] for i in sorted(mki.values())]
-        return inst
+        return inst._copy(ArrayValue(
+            inst.value + [value[i] for i in sorted(mki.values())]))
 
     def _merge_container(self, value: ObjectValue) -> "InstanceNode":
         inst = self._copy(self.value)
@@ -345,8 +344,9 @@ class InstanceNode:
                 inst = inst[k].merge(value[k]).up()
             else:
                 rest.append(k)
-        inst.value.update({k: value[k] for k in rest})
-        return inst
+        newval = inst.value.copy()
+        newval.update({k: value[k] for k in rest})
+        return inst._copy(newval)
 
     def goto(self, iroute: "InstanceRoute") -> "InstanceNode":
         """Move the focus to an instance inside the receiver's value.
-- 
2.43.0


From 7bac60ca8b5990bed9ca43f9063a465d466dfd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 003/116] fix: derived_from and derived_from_all no longer
 modify the identity graph

---
 yangson/schemadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 3685539..23e2d24 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -472,7 +472,7 @@ class SchemaData:
     def derived_from(self, identity: QualName) -> MutableSet[QualName]:
         """Return list of identities transitively derived from `identity`."""
         try:
-            res = self.identity_adjs[identity].derivs
+            res = self.identity_adjs[identity].derivs.copy()
         except KeyError:
             return set()
         for id in res.copy():
-- 
2.43.0


From bd6d719a23edc1bb895c57539187bf302eb057c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 004/116] fix: report a missing mandatory choice as a schema
 error

The list of expected members was None when a case had no mandatory
member, so that reporting the error failed with TypeError.
---
 yangson/schpattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 7a53ce9..c85f850 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -280,8 +280,9 @@ class ChoicePattern(Alternative, Typeable):
                 f"Choice {self.name}\n{self.left.tree(indent + 2)}\n"
                 f"{self.right.tree(indent + 2)}")
 
-    def _members(self, ctype: ContentType) -> list[InstanceName]:
-        return super()._members(ctype) if self._active(ctype) else []
+    def _mandatory_members(self, ctype: ContentType) -> list[InstanceName]:
+        if self._active(ctype):
+            return super()._mandatory_members(ctype) or [self.name]
 
 
 class Pair(SchemaPattern):
-- 
2.43.0


From 276b64fc584cc5e9595b976df09d3a6558836478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 005/116] fix: propagate mandatory configuration past an
 earlier mandatory state node

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 12d83df..d65bace 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1133,9 +1133,10 @@ class ContainerNode(DataNode, InternalNode):
         return res
 
     def _add_mandatory_child(self, node: SchemaNode):
-        propagate = not (self.presence or self.mandatory)
+        before = (self.mandatory, self.mandatory_config)
         super()._add_mandatory_child(node)
-        if propagate:
+        if not self.presence and before != (
+                self.mandatory, self.mandatory_config):
             self.parent._add_mandatory_child(self)
 
     def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
-- 
2.43.0


From 480ca56e60ae2d81bce0d42d53c4d1751a49ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 006/116] fix: enforce mandatory and config of a choice with a
 single case

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index d65bace..20dfa62 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1490,6 +1490,8 @@ class ChoiceNode(InternalNode):
         if not self.children:
             return Empty()
         prev = self.children[0]._schema_pattern()
+        if len(self.children) == 1:
+            prev = ChoicePattern(prev, NotAllowed(), self.name)
         for c in self.children[1:]:
             prev = ChoicePattern(c._schema_pattern(), prev, self.name)
         prev.ctype = self.content_type()
-- 
2.43.0


From 7350399a02ea6cfa5bad1949006255686455d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 007/116] fix: cases added by a conditional augment are
 alternatives of the choice

---
 yangson/schemanode.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 20dfa62..0c4fc09 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1481,19 +1481,33 @@ class ChoiceNode(InternalNode):
 
     def _active_case(self, value: ObjectValue) -> Optional["CaseNode"]:
         """Return receiver's case that's active in an instance node value."""
-        for c in self.children:
+        for c in self._cases():
             for cc in c.data_children():
                 if cc.iname() in value:
                     return c
 
+    def _cases(self) -> list["CaseNode"]:
+        """Return receiver's cases, including those in conditional groups."""
+        res = []
+        for c in self.children:
+            res.extend(c.children if isinstance(c, GroupNode) else [c])
+        return res
+
+    def _case_pattern(self, case: "CaseNode") -> SchemaPattern:
+        """Return pattern of a case, subject to its group's condition."""
+        pat = case._schema_pattern()
+        when = None if case.parent is self else case.parent.when
+        return ConditionalPattern(pat, when) if when else pat
+
     def _pattern_entry(self) -> SchemaPattern:
-        if not self.children:
+        cases = self._cases()
+        if not cases:
             return Empty()
-        prev = self.children[0]._schema_pattern()
-        if len(self.children) == 1:
+        prev = self._case_pattern(cases[0])
+        if len(cases) == 1:
             prev = ChoicePattern(prev, NotAllowed(), self.name)
-        for c in self.children[1:]:
-            prev = ChoicePattern(c._schema_pattern(), prev, self.name)
+        for c in cases[1:]:
+            prev = ChoicePattern(self._case_pattern(c), prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
             prev = SchemaPattern.optional(prev)
-- 
2.43.0


From 046b72e25de79ebc90df2ea77a06fad93801bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 008/116] fix: enforce must statements of a notification

---
 yangson/schemanode.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 0c4fc09..3bad8d3 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1818,6 +1818,13 @@ class NotificationNode(SchemaTreeNode):
         self.default_deny: DefaultDeny = DefaultDeny.none
         self._ctype = ContentType.nonconfig
 
+    def _validate(self, inst: InstanceNode, scope: ValidationScope,
+                  ctype: ContentType) -> None:
+        """Extend the superclass method."""
+        if scope.value & ValidationScope.semantics.value:
+            DataNode._check_must(self, inst)
+        super()._validate(inst, scope, ctype)
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
-- 
2.43.0


From 6ea6924a5705cd39701449e02e956044b3062674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:50 +0000
Subject: [PATCH 009/116] fix: accept min and max as whole parts of a
 restriction expression

---
 yangson/constraint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index d1a94c0..a05e237 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -91,6 +91,10 @@ class Intervals(Constraint, Generic[N]):
             InvalidArgument: If parsing of `expr` fails.
         """
         def parse(x: str) -> N:
+            if x == "min":
+                return lo
+            if x == "max":
+                return hi
             res = self.parser(x)
             if res is None:
                 raise InvalidArgument(expr)
-- 
2.43.0


From 241d8a95c4474c3cd700151ab52a7097ff7bb067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:01 +0000
Subject: [PATCH 010/116] fix: set error info when union, leafref and
 instance-identifier reject a value

---
 yangson/datatype.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ed91a47..f778ae1 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -633,7 +633,11 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         super().__init__(sctx, name)
 
     def __contains__(self, val: ScalarValue) -> bool:
-        return val in self.ref_type
+        if val in self.ref_type:
+            return True
+        self._set_error_info(self.ref_type.error_tag,
+                             self.ref_type.error_message)
+        return False
 
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         super()._handle_properties(stmt, sctx)
@@ -686,7 +690,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def __contains__(self, val: InstanceRoute) -> bool:
-        return isinstance(val, InstanceRoute)
+        if isinstance(val, InstanceRoute):
+            return True
+        self._set_error_info()
+        return False
 
     def yang_type(self) -> YangIdentifier:
         """Override the superclass method."""
@@ -1104,6 +1111,7 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                     return True
             except TypeError:
                 continue
+        self._set_error_info()
         return False
 
     def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
-- 
2.43.0


From ae50940b7e6edb96a5ada354a6ec515c99e7b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 011/116] fix: bits type must not accept strings or fail on
 other values

---
 yangson/datatype.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index f778ae1..b84b550 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -282,6 +282,10 @@ class BitsType(DataType[tuple[str, ...], str]):
         self.bit: dict[str, int] = {}
 
     def __contains__(self, val: tuple[str, ...]) -> bool:
+        if (not isinstance(val, tuple)
+                or not all(isinstance(b, str) for b in val)):
+            self._set_error_info()
+            return False
         for b in val:
             if b not in self.bit:
                 self._set_error_info(error_message="unknown bit " + b)
-- 
2.43.0


From 8416df07dbe485aa512c67e505f93c7ca99c0551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 012/116] fix: type check of an object value against
 identityref

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index b84b550..5e5d5d9 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -799,7 +799,7 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         """Return canonical form of a value."""
         try:
             return f"{val[1]}:{val[0]}"
-        except (TypeError, IndexError):
+        except (TypeError, IndexError, KeyError):
             return None
 
     def _handle_properties(self, stmt: Statement,
-- 
2.43.0


From 998818a01bf936364047ec7b0419f78b29d69dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 013/116] fix: compare structured values by content rather than
 by hash

---
 yangson/instvalue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index c706834..a614f8b 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -66,7 +66,11 @@ class StructuredValue:
         Args:
         :param val: value to compare
         """
-        return self.__class__ == val.__class__ and hash(self) == hash(val)
+        return self.__class__ == val.__class__ and super().__eq__(val)
+
+    def __ne__(self, val: "StructuredValue") -> bool:
+        """Return ``True`` if the receiver isn't equal to `val`."""
+        return not self == val
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-- 
2.43.0


From b672a63319179d9f52829331da439f55dc844940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 014/116] fix: comparing route items of different kinds,
 hashing of routes

---
 yangson/instance.py  | 23 +++++++++++++++++++----
 yangson/instroute.py |  4 ----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index d000f44..94d16f2 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1045,7 +1045,11 @@ class MemberName:
         self.namespace = ns
 
     def __eq__(self, other: object) -> bool:
-        return self.name == other.name and self.namespace == other.namespace
+        return (self.__class__ == other.__class__ and self.name == other.name
+                and self.namespace == other.namespace)
+
+    def __hash__(self) -> int:
+        return hash((self.name, self.namespace))
 
     def __str__(self) -> str:
         return "/" + self.iname()
@@ -1098,7 +1102,11 @@ class EntryIndex:
         self.index = index
 
     def __eq__(self, other: object) -> bool:
-        return self.index == other.index
+        return (self.__class__ == other.__class__ and
+                self.index == other.index)
+
+    def __hash__(self) -> int:
+        return hash(self.index)
 
     def __str__(self) -> str:
         return f"[{self.index + 1}]"
@@ -1132,7 +1140,11 @@ class EntryValue:
         return f"[.={json.dumps(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
-        return self.value == other.value
+        return (self.__class__ == other.__class__ and
+                self.value == other.value)
+
+    def __hash__(self) -> int:
+        return hash(self.value)
 
     def parse_value(self, sn: "DataNode") -> ScalarValue:
         """Let schema node's type parse the receiver's value."""
@@ -1182,7 +1194,10 @@ class EntryKeys:
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-        return self.keys == other.keys
+        return self.__class__ == other.__class__ and self.keys == other.keys
+
+    def __hash__(self) -> int:
+        return hash(frozenset(self.keys.items()))
 
     def parse_keys(self, sn: "DataNode") -> dict[InstanceName, ScalarValue]:
         """Parse key dictionary in the context of a schema node.
diff --git a/yangson/instroute.py b/yangson/instroute.py
index 3545de2..e33e841 100644
--- a/yangson/instroute.py
+++ b/yangson/instroute.py
@@ -67,7 +67,3 @@ class InstanceRoute(tuple[InstanceRouteItem, ...]):
             return "".join([str(c) for c in self])
         else:
             return "/"
-
-    def __hash__(self) -> int:
-        """Return the hash value of the receiver."""
-        return self.__str__().__hash__()
-- 
2.43.0


From c2aea92a4fe6bfbbcfdee18f1a3756c371722225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 015/116] fix: hashing of object values with annotations

---
 yangson/instvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index a614f8b..c293d90 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -100,5 +100,5 @@ class ObjectValue(StructuredValue, dict):
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        sks = sorted(self.keys())
+        sks = sorted(k for k in self if not k.startswith("@"))
         return tuple([(k, self[k].__hash__()) for k in sks]).__hash__()
-- 
2.43.0


From 4a7b2e2c8b895e45dc5199793ce84e80d0409c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:19 +0000
Subject: [PATCH 016/116] fix: decoding of malformed base64 and non-ASCII
 binary values

---
 yangson/datatype.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 5e5d5d9..f9125c2 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -45,7 +45,6 @@ This module implements the following classes:
 """
 from abc import ABC, abstractmethod
 import base64
-import binascii
 import decimal
 import xml.etree.ElementTree as ET
 import re
@@ -521,7 +520,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(raw, validate=True)
-        except (TypeError, binascii.Error):
+        except (TypeError, ValueError):
             return None
 
     def parse_value(self, text: str) -> Optional[bytes]:
@@ -531,7 +530,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(cast(str, xml.text), validate=True)
-        except TypeError:
+        except (TypeError, ValueError):
             return None
 
     def to_raw(self, val: bytes) -> Optional[str]:
-- 
2.43.0


From 0e75f20ce754328f4fc783b8199392f7a4320422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:20 +0000
Subject: [PATCH 017/116] fix: reject NaN as a decimal64 value

---
 yangson/datatype.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index f9125c2..e0f26af 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -892,21 +892,19 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
+        if not isinstance(raw, str):
+            return None
         try:
-            return (decimal.Decimal(raw).quantize(self._epsilon)
-                    if isinstance(raw, str) else None)
+            res = decimal.Decimal(raw).quantize(self._epsilon)
         except decimal.InvalidOperation:
             return None
+        return res if res.is_finite() else None
 
     def parse_value(self, text: str) -> Optional[decimal.Decimal]:
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[decimal.Decimal]:
-        try:
-            return (decimal.Decimal(xml.text).quantize(self._epsilon)
-                    if isinstance(xml.text, str) else None)
-        except decimal.InvalidOperation:
-            return None
+        return self.from_raw(cast(str, xml.text))
 
     def to_raw(self, val: decimal.Decimal) -> str:
         return self.canonical_string(val)
-- 
2.43.0


From 8105a390974ba97879b020fa7993173c117267bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 018/116] fix: instance-identifier given as another JSON type
 than string

---
 yangson/datatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index e0f26af..486d4b3 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -703,6 +703,8 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def from_raw(self, raw: InstanceIdentifier) -> Optional[InstanceRoute]:
+        if not isinstance(raw, str):
+            return None
         try:
             return InstanceIdParser(raw).parse()
         except ParserException:
-- 
2.43.0


From 3aceef936b5f5d875c3c3e534adaeabcc4b62fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 019/116] fix: members following an annotation were decoded
 with a wrong path

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 3bad8d3..67596b8 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -539,12 +539,13 @@ class InternalNode(SchemaNode):
         res = ObjectValue()
         for qn in rval:
             if qn.startswith("@"):
+                mptr = jptr
                 if qn != "@":
                     tgt = qn[1:]
                     if tgt not in rval:
                         raise MissingAnnotationTarget(jptr, tgt)
-                    jptr += '/' + tgt
-                res[qn] = self._process_metadata(rval[qn], jptr)
+                    mptr += '/' + tgt
+                res[qn] = self._process_metadata(rval[qn], mptr)
             else:
                 cn = self._iname2qname(qn)
                 ch = self.get_data_child(*cn)
-- 
2.43.0


From 95232884c68b85ee6ecc16514dcaa4a8f680b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:56 +0000
Subject: [PATCH 020/116] fix: metadata of a wrong JSON type

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 67596b8..36a58c6 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -610,6 +610,8 @@ class InternalNode(SchemaNode):
 
     def _process_metadata(self, rmo: RawMetadataObject,
                           jptr: JSONPointer) -> MetadataObject:
+        if not isinstance(rmo, dict):
+            raise RawTypeError(jptr, "object")
         res = {}
         ans = self.schema_root().annotations
         for mem in rmo:
-- 
2.43.0


From 6240df81ef660a146c06eaed10a6cdbe149e5de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:41 +0000
Subject: [PATCH 021/116] fix: merging list entries that have no keys

---
 yangson/instance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 94d16f2..72c7232 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -326,15 +326,19 @@ class InstanceNode:
                 en for en in value if en in set(value) - set(self.value)]))
         keys = self.schema_node._key_members
         mki = {}
+        rest = []
         for i in range(len(value)):
-            mki[tuple([value[i][k] for k in keys])] = i
+            if keys and all(k in value[i] for k in keys):
+                mki[tuple([value[i][k] for k in keys])] = i
+            else:
+                rest.append(i)
         for i in range(len(self.value)):
-            kval = tuple([self.value[i][k] for k in keys])
+            kval = tuple([self.value[i].get(k) for k in keys])
             if kval in mki:
                 inst = inst[i].merge(value[mki[kval]]).up()
                 del mki[kval]
         return inst._copy(ArrayValue(
-            inst.value + [value[i] for i in sorted(mki.values())]))
+            inst.value + [value[i] for i in sorted(rest + [*mki.values()])]))
 
     def _merge_container(self, value: ObjectValue) -> "InstanceNode":
         inst = self._copy(self.value)
-- 
2.43.0


From a38884d2be73d8a1db64ad9f34014bc776dd461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:56 +0000
Subject: [PATCH 022/116] fix: merging into list and leaf-list entries and
 anyxml

---
 yangson/instance.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 72c7232..23e935a 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -310,15 +310,19 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the merged value.
         """
-        if (isinstance(self.schema_node, (LeafNode, AnydataNode)) or
+        if (isinstance(self.schema_node, AnyContentNode) or
+                not isinstance(self.value, StructuredValue) or
                 not self.value):
             return self.update(value, raw)
-        newval = self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
+        newval = self._cook_value(value, raw)
         if isinstance(self.value, ArrayValue):
             return self._merge_list(newval)
         return self._merge_container(newval)
 
+    def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
+        return self.schema_node.from_raw(
+            value, self.json_pointer()) if raw else value
+
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
         inst = self._copy(self.value)
         if isinstance(self.schema_node, LeafListNode):
@@ -1376,7 +1380,7 @@ class InstanceIdParser(Parser):
 
 
 from .schemanode import (       # NOQA
-            AnyContentNode, AnydataNode, CaseNode,
+            AnyContentNode, CaseNode,
             ChoiceNode, DataNode, InputNode,
             InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
-- 
2.43.0


From 09ce3ce9ce8e63aaedb4e34028ff4fc766baf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 023/116] fix: canonical form of small decimal64 values

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 486d4b3..f470d56 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -919,7 +919,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
             return None
         if val == 0:
             return "0.0"
-        sval = str(val.quantize(self._epsilon)).rstrip("0")
+        sval = f"{val.quantize(self._epsilon):f}".rstrip("0")
         return (sval + "0") if sval.endswith(".") else sval
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
-- 
2.43.0


From f6568f216513221dd0a0f732caffd90247a8fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 024/116] fix: lexical representation of 64-bit integers and
 decimal64

---
 yangson/datatype.py | 48 +++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index f470d56..94a1ed8 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -866,6 +866,9 @@ class NumericType(DataType[N, RN]):
 class Decimal64Type(NumericType[decimal.Decimal, str]):
     """Class representing YANG "decimal64" type."""
 
+    lexical = re.compile(r"[-+]?[0-9]+(\.[0-9]*)?")
+    """Regular expression for the lexical representation."""
+
     def __init__(self, sctx: SchemaContext, name: YangIdentifier) -> None:
         """Initialize the class instance."""
         super().__init__(sctx, name)
@@ -896,17 +899,19 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
         """
         if not isinstance(raw, str):
             return None
+        if not self.lexical.fullmatch(raw):
+            return None
         try:
-            res = decimal.Decimal(raw).quantize(self._epsilon)
+            return decimal.Decimal(raw).quantize(self._epsilon)
         except decimal.InvalidOperation:
             return None
-        return res if res.is_finite() else None
 
     def parse_value(self, text: str) -> Optional[decimal.Decimal]:
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[decimal.Decimal]:
-        return self.from_raw(cast(str, xml.text))
+        return (self.from_raw(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def to_raw(self, val: decimal.Decimal) -> str:
         return self.canonical_string(val)
@@ -934,6 +939,9 @@ class IntegralType(NumericType[int, RN]):
     octhex = re.compile("[-+]?0([x0-9])")
     """Regular expression for octal or hexadecimal default."""
 
+    decint = re.compile("[-+]?[0-9]+")
+    """Regular expression for decimal integers."""
+
     def __contains__(self, val: int) -> bool:
         if not isinstance(val, int) or isinstance(val, bool):
             self._set_error_info()
@@ -946,7 +954,7 @@ class IntegralType(NumericType[int, RN]):
     def parse_value(self, text: str) -> Optional[int]:
         """Override superclass method."""
         try:
-            return int(text)
+            return int(text) if self.decint.fullmatch(text) else None
         except ValueError:
             return None
 
@@ -959,10 +967,8 @@ class IntegralType(NumericType[int, RN]):
             return None
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return (self.parse_value(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def from_yang(self, text: str) -> int:
         """Override the superclass method."""
@@ -1014,22 +1020,15 @@ class Int64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str) or isinstance(raw, bool):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw) if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         """Override superclass method.
 
         XML is always delivered as a text element
         """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return (self.parse_value(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
@@ -1075,22 +1074,15 @@ class Uint64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw) if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         """Override superclass method.
 
         XML is always delivered as a text element
         """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return (self.parse_value(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From e92136aec28307b452253ddc2c75ff531cb529b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 025/116] fix: annotations are not data members in XPath and
 defaults

---
 yangson/instance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 23e935a..fca34bc 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -420,8 +420,9 @@ class InstanceNode:
             return self
         res = self
         if isinstance(val, ObjectValue):
-            if val:
-                for mn in self._member_names():
+            names = self._member_names()
+            if names:
+                for mn in names:
                     m = res._member(mn) if res is self else res.sibling(mn)
                     res = m.add_defaults(ctype, tag=tag)
                 res = res.up()
@@ -686,7 +687,7 @@ class InstanceNode:
                     return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
-        for mn in wd.value:
+        for mn in wd._member_names():
             res.extend(wd._member(mn)._node_set())
         return res
 
-- 
2.43.0


From c0e4ea99d15c9a0b9d0fda555115dbac40ca1fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 026/116] fix: merging annotated objects

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index fca34bc..fdee6a8 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -348,7 +348,7 @@ class InstanceNode:
         inst = self._copy(self.value)
         rest = []
         for k in value:
-            if k in self.value:
+            if k in self.value and not k.startswith("@"):
                 inst = inst[k].merge(value[k]).up()
             else:
                 rest.append(k)
-- 
2.43.0


From b84a3341e16273acf29c651224e8c318665e0d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 027/116] fix: raw output of annotations

---
 yangson/instance.py   | 17 ++++++++++-------
 yangson/schemanode.py |  8 ++++++++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index fdee6a8..cfe26e7 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -485,8 +485,12 @@ class InstanceNode:
             attr = self._get_attributes()
             for m in self.value:
                 if m[0] != '@':
-                    m_attr = attr.get(m, {})
                     member = self[m]
+                    sn = (self.schema_node if '@'+m in self.value
+                          else member.schema_node)
+                    m_attr = attr.get(m, {})
+                    if isinstance(sn, InternalNode):
+                        m_attr = sn._raw_metadata(m_attr)
                     add1 = filter.begin_member(self, member, m_attr)
                     if add1:
                         member_value = member.raw_value(filter)
@@ -496,18 +500,17 @@ class InstanceNode:
 
                         if m_attr:
                             if isinstance(value[m], dict):
-                                value[m]['@'] = attr[m]
+                                value[m]['@'] = m_attr
                             else:
-                                value['@'+m] = attr[m]
+                                value['@'+m] = m_attr
 
             return value
         if isinstance(self.value, ArrayValue):
             value = list()
             for en in self:
-                if isinstance(en, dict) and '@' in en.value:
-                    e_attr = en['@']
-                else:
-                    e_attr = {}
+                e_attr = {}
+                if isinstance(en.value, ObjectValue) and '@' in en.value:
+                    e_attr = self.schema_node._raw_metadata(en.value['@'])
                 add1 = filter.begin_element(self, en, e_attr)
                 if add1:
                     member_value = en.raw_value(filter)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 36a58c6..c884bf8 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -624,6 +624,14 @@ class InternalNode(SchemaNode):
                 raise AnnotationTypeError(jptr, mem, an.type.error_message)
         return res
 
+    def _raw_metadata(self, mdo: MetadataObject) -> RawMetadataObject:
+        ans = self.schema_root().annotations
+        res = {}
+        for mem in mdo:
+            an = ans.get(self._iname2qname(mem))
+            res[mem] = an.type.to_raw(mdo[mem]) if an else mdo[mem]
+        return res
+
     def _node_digest(self) -> dict[str, Any]:
         res = super()._node_digest()
         rc = res["children"] = {}
-- 
2.43.0


From 4244fd155c8a8cf732591b66a8686ec51c10969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 028/116] fix: names of annotated members given with a
 redundant module prefix

---
 yangson/schemanode.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c884bf8..df16cb4 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -540,29 +540,33 @@ class InternalNode(SchemaNode):
         for qn in rval:
             if qn.startswith("@"):
                 mptr = jptr
+                iname = ""
                 if qn != "@":
                     tgt = qn[1:]
                     if tgt not in rval:
                         raise MissingAnnotationTarget(jptr, tgt)
                     mptr += '/' + tgt
-                res[qn] = self._process_metadata(rval[qn], mptr)
+                    iname = self._raw_member(tgt, jptr)[1]
+                res["@" + iname] = self._process_metadata(rval[qn], mptr)
             else:
-                cn = self._iname2qname(qn)
-                ch = self.get_data_child(*cn)
-                if jptr == "" and ch is None:
-                    ch = self.get_child(*cn)
-                    if not isinstance(ch, SchemaTreeNode):
-                        ch = None
-                npath = jptr + "/" + qn
-                if ch is None:
-                    raise RawMemberError(npath)
-                if jptr == "" or self.ns != ch.ns:
-                    iname = '{1}:{0}'.format(*ch.qual_name)
-                else:
-                    iname = ch.name
-                res[iname] = ch.from_raw(rval[qn], npath)
+                ch, iname = self._raw_member(qn, jptr)
+                res[iname] = ch.from_raw(rval[qn], jptr + "/" + qn)
         return res
 
+    def _raw_member(self, qn: InstanceName,
+                    jptr: JSONPointer) -> tuple[SchemaNode, InstanceName]:
+        cn = self._iname2qname(qn)
+        ch = self.get_data_child(*cn)
+        if jptr == "" and ch is None:
+            ch = self.get_child(*cn)
+            if not isinstance(ch, SchemaTreeNode):
+                ch = None
+        if ch is None:
+            raise RawMemberError(jptr + "/" + qn)
+        if jptr == "" or self.ns != ch.ns:
+            return ch, '{1}:{0}'.format(*ch.qual_name)
+        return ch, ch.name
+
     def from_xml(self, rval: ET.Element,
                  jptr: JSONPointer = "") -> ObjectValue:
         res = ObjectValue()
-- 
2.43.0


From 1e7d06767234003733682619b7e685a39e9313da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 029/116] fix: empty strings, binaries and bits in XML

---
 yangson/datatype.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 94a1ed8..5c55f89 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -266,7 +266,7 @@ class EmptyType(DataType[tuple[None], list[None]]):
         return [None]
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[None]]:
-        return (None,) if xml.text is None else None
+        return None if xml.text else (None,)
 
     def to_xml(self, val: tuple[None]) -> None:
         return None
@@ -305,10 +305,7 @@ class BitsType(DataType[tuple[str, ...], str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
-        try:
-            return tuple(cast(str, xml.text).split())
-        except AttributeError:
-            return None
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: tuple[str, ...]) -> Optional[str]:
         return self.canonical_string(val)
@@ -480,7 +477,7 @@ class StringType(LinearType[str]):
         return raw if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[str]:
-        return self.from_raw(cast(str, xml.text))
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: str) -> Optional[str]:
         return val if val in self else None
@@ -528,10 +525,7 @@ class BinaryType(LinearType[bytes]):
 
     def from_xml(self, xml: ET.Element) -> Optional[bytes]:
         """Override superclass method."""
-        try:
-            return base64.b64decode(cast(str, xml.text), validate=True)
-        except (TypeError, ValueError):
-            return None
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: bytes) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From 64ac4ccc46ac84c4a9dd160b6334a8091a34a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 030/116] fix: decoding XML with a bad subschema

---
 yangson/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index b5a86d9..be02446 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -149,6 +149,9 @@ class DataModel:
                 raise NonexistentSchemaNode(self.schema.qual_name, loc, p)
             if isinstance(subsn, SchemaTreeNode):
                 schema = subsn
+            else:
+                raise BadSchemaNodeType(subsn.qual_name,
+                                        "notification or rpc")
         else:
             schema = self.schema
         cooked = cast(ObjectValue, schema.from_xml(root))
-- 
2.43.0


From b731234b3f0d7b9025bbc5fc20b48de5cb4688ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 031/116] fix: XML representation of notifications

---
 yangson/instance.py   | 19 ++++++++++++-------
 yangson/schemanode.py |  2 +-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index cfe26e7..1116ea7 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -523,18 +523,21 @@ class InstanceNode:
             return value
         return self.schema_node.type.to_raw(self.value)
 
+    def _xml_element(self) -> ET.Element:
+        element = ET.Element(self.schema_node.name)
+        module = self.schema_data.modules_by_name.get(self.schema_node.ns)
+        if not module:
+            raise MissingModuleNamespace(self.schema_node.ns)
+        element.attrib['xmlns'] = module.xml_namespace
+        return element
+
     def to_xml(self, filter: OutputFilter = OutputFilter(),
                elem: ET.Element = None):
         """put receiver's value into a XML element"""
         has_default_ns = False
 
         if elem is None:
-            element = ET.Element(self.schema_node.name)
-
-            module = self.schema_data.modules_by_name.get(self.schema_node.ns)
-            if not module:
-                raise MissingModuleNamespace(self.schema_node.ns)
-            element.attrib['xmlns'] = module.xml_namespace
+            element = self._xml_element()
         else:
             element = elem
 
@@ -757,8 +760,10 @@ class RootNode(InstanceNode):
         """put receiver's value into a XML element"""
         element = ET.Element(tag)
         element.attrib['xmlns'] = urn
+        if isinstance(self.schema_node, NotificationNode):
+            return super().to_xml(filter, self._xml_element())
         et = super().to_xml(filter, element)
-        if isinstance(self.schema_node, (RpcActionNode, NotificationNode)):
+        if isinstance(self.schema_node, RpcActionNode):
             return et[0]
         return et
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index df16cb4..49e3baa 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -602,7 +602,7 @@ class InternalNode(SchemaNode):
         if ch is None:
             raise RawMemberError(npath)
 
-        if rval is not None and self.ns == ch.ns:
+        if jptr != "" and self.ns == ch.ns:
             iname = ch.name
         else:
             iname = '{1}:{0}'.format(*ch.qual_name)
-- 
2.43.0


From 708c90bf3a3316c5d94052c46480e87d451c0e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 032/116] fix: XML elements without a namespace

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 49e3baa..51542de 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -590,6 +590,8 @@ class InternalNode(SchemaNode):
         else:
             name = xmlchild.tag
             ns = self.ns
+            if ns is None:
+                raise RawMemberError(jptr + "/" + name)
             fqn = ns + ':' + name
         qn = fqn if ns != self.ns else name
 
@@ -1308,8 +1310,7 @@ class SequenceNode(DataNode):
             ns = module.yang_id[0]
             qn = ns + ':' + name
         else:
-            name = qn = xmlchild.tag
-            ns = self.ns
+            qn = self.ns + ':' + xmlchild.tag
         if tagname is None or qn == tagname:
             child = self.entry_from_xml(xmlchild, jptr + "/" + str(len(res)))
             res.append(child)
-- 
2.43.0


From 1f7964241355dd36b72c45bcb92edc1a2b17f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 033/116] fix: prefixes of identities in XML

---
 yangson/datatype.py | 30 +++++++++++++++++++++---------
 yangson/instance.py | 13 +++++--------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 5c55f89..be50c5c 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -54,7 +54,7 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 from .constraint import Intervals, Pattern
 from .exceptions import (
     InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError)
+    InvalidLeafrefPath, XPathTypeError)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -125,6 +125,10 @@ class DataType(ABC, Generic[S, RS]):
         """Return XML text value ready to be serialized in XML."""
         return str(val) if val in self else None
 
+    def _xml_module(self, val: S) -> Optional[YangIdentifier]:
+        """Return the module name used as a prefix in the XML text value."""
+        return None
+
     @abstractmethod
     def parse_value(self, text: str) -> Optional[S]:
         """Parse value of the receiver's type.
@@ -656,6 +660,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def to_xml(self, val: ScalarValue) -> Optional[str]:
         return self.ref_type.to_xml(val)
 
+    def _xml_module(self, val: ScalarValue) -> Optional[YangIdentifier]:
+        return self.ref_type._xml_module(val)
+
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
@@ -763,18 +770,14 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         if not s:
             # not prefixed, so assume default ns
             return (i1, self.sctx.default_ns)
-        elif i1 == self.sctx.default_ns:
-            # prefixed with default ns
-            return (i2, self.sctx.default_ns)
 
         # the following code has issues (Issue #79)
         ns_url = xml.attrib.get('xmlns:'+i1)
-        if not ns_url:
-            raise MissingModuleNamespace(cast(str, ns_url))
+        if ns_url is None:
+            return ((i2, self.sctx.default_ns)
+                    if i1 == self.sctx.default_ns else None)
         module = self.sctx.schema_data.modules_by_ns.get(ns_url)
-        if not module:
-            raise MissingModuleNamespace(ns_url)
-        return (i2, module.main_module[0])
+        return (i2, module.main_module[0]) if module else None
 
     def to_raw(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
@@ -782,6 +785,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
+    def _xml_module(self, val: QualName) -> Optional[YangIdentifier]:
+        return val[1]
+
     def from_yang(self, text: YangIdentifier) -> QualName:
         """Override the superclass method."""
         try:
@@ -1115,6 +1121,12 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return t.to_xml(val)
         return None
 
+    def _xml_module(self, val: ScalarValue) -> Optional[YangIdentifier]:
+        for t in self.types:
+            if val in t:
+                return t._xml_module(val)
+        return None
+
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
         for t in self.types:
             if val in t:
diff --git a/yangson/instance.py b/yangson/instance.py
index 1116ea7..809e376 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -602,13 +602,12 @@ class InstanceNode:
         else:
             sn = self.schema_node
             if isinstance(sn, TerminalNode):
-                if isinstance(sn.type, IdentityrefType):
-                    module = self.schema_data.modules_by_name.get(
-                        self.value[1])
+                mid = sn.type._xml_module(self.value)
+                if mid:
+                    module = self.schema_data.modules_by_name.get(mid)
                     if not module:
-                        raise MissingModuleNamespace(sn.ns)
-                    element.attrib[
-                        'xmlns:'+self.value[1]] = module.xml_namespace
+                        raise MissingModuleNamespace(mid)
+                    element.attrib['xmlns:'+mid] = module.xml_namespace
                 element.text = sn.type.to_xml(self.value)
 
         if elem is not None:
@@ -1394,5 +1393,3 @@ from .schemanode import (       # NOQA
             InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
             TerminalNode)
-from .datatype import (         # NOQA
-            IdentityrefType)
-- 
2.43.0


From abfcd30d7d9f7d4942e65202872b0440624999f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 034/116] fix: XML text in containers and elements in leaves

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 51542de..f8f64a5 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -570,6 +570,8 @@ class InternalNode(SchemaNode):
     def from_xml(self, rval: ET.Element,
                  jptr: JSONPointer = "") -> ObjectValue:
         res = ObjectValue()
+        if rval.text and rval.text.strip():
+            raise RawTypeError(jptr, "object")
         if isinstance(self, RpcActionNode) and jptr == "":
             self._process_xmlobj_child(res, None, rval, jptr)
         else:
@@ -1059,7 +1061,7 @@ class TerminalNode(SchemaNode):
         return res
 
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "") -> Value:
-        res = self.type.from_xml(rval)
+        res = self.type.from_xml(rval) if len(rval) == 0 else None
         if res is None:
             raise RawTypeError(jptr, self.type.yang_type() + " value")
         return res
-- 
2.43.0


From fcd5cb8caa0dd95623407acaf905e57fb93e319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 035/116] fix: XPath conversion to numbers

---
 yangson/nodeset.py  | 15 ++++++++++++++-
 yangson/xpathast.py | 26 +++++++++-----------------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index f26b457..0734565 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -16,6 +16,7 @@
 # along with Yangson.  If not, see <http://www.gnu.org/licenses/>.
 
 """XPath node-set"""
+import re
 from typing import Callable, Union
 from numbers import Number
 from .instance import InstanceNode
@@ -26,6 +27,18 @@ NodeExpr = Callable[[InstanceNode], "NodeSet"]
 XPathValue = Union["NodeSet", str, float, bool]
 
 
+number_re = re.compile(r"[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*")
+"""Regular expression for strings convertible to a number (sec. 4.4)."""
+
+
+def xpath_number(val: XPathValue) -> float:
+    """Convert an XPath value to a number as the *number* function does."""
+    if isinstance(val, (bool, float)):
+        return float(val)
+    text = str(val)
+    return float(text) if number_re.fullmatch(text) else float("nan")
+
+
 def comparison(meth):
     def wrap(self, arg):
         if isinstance(arg, NodeSet):
@@ -50,7 +63,7 @@ class NodeSet(list):
             {m.path: m for n in self for m in trans(n)}.values())
 
     def __float__(self) -> float:
-        return (float(self[0].value) if self else float("nan"))
+        return xpath_number(str(self))
 
     def __str__(self) -> str:
         return str(self[0]) if self else ""
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 0fb6756..bebd6ca 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -35,7 +35,7 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue
+from .nodeset import NodeExpr, NodeSet, XPathValue, xpath_number
 from .typealiases import QualName
 
 
@@ -75,11 +75,7 @@ class Expr:
         return self._eval(XPathContext(node, node, 1, 1))
 
     def _eval_float(self, xctx: XPathContext) -> float:
-        val = self._eval(xctx)
-        try:
-            return float(val)
-        except ValueError:
-            return float('nan')
+        return xpath_number(self._eval(xctx))
 
     def _eval_string(self, xctx: XPathContext) -> str:
         val = self._eval(xctx)
@@ -668,7 +664,7 @@ class FuncLast(Expr):
     def __str__(self) -> str:
         return "last()"
 
-    def _eval(self, xctx: XPathContext) -> int:
+    def _eval(self, xctx: XPathContext) -> float:
         return float(xctx.size)
 
 
@@ -721,10 +717,7 @@ class FuncNumber(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
         if self.expr is None:
-            try:
-                return float(xctx.cnode.value)
-            except ValueError:
-                return float('nan')
+            return xpath_number(str(xctx.cnode))
         return self.expr._eval_float(xctx)
 
 
@@ -733,8 +726,8 @@ class FuncPosition(Expr):
     def __str__(self) -> str:
         return "position()"
 
-    def _eval(self, xctx: XPathContext) -> int:
-        return xctx.position
+    def _eval(self, xctx: XPathContext) -> float:
+        return float(xctx.position)
 
 
 class FuncReMatch(BinaryExpr):
@@ -836,10 +829,9 @@ class FuncSum(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        try:
-            return float(sum([n.value for n in ns]))
-        except TypeError:
-            return float('nan')
+        return float(sum([
+            xpath_number(n.value if isinstance(n.value, bool) else str(n))
+            for n in ns]))
 
 
 class FuncTranslate(BinaryExpr):
-- 
2.43.0


From 87c7607de609f23fe1079c1116ade50ba66339bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 036/116] fix: XPath conversion to booleans

---
 yangson/instance.py   |  2 +-
 yangson/nodeset.py    |  8 ++++++++
 yangson/schemanode.py |  8 ++++----
 yangson/schpattern.py |  2 +-
 yangson/xpathast.py   | 30 +++++++++++++++++++++---------
 5 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 809e376..95185b6 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -686,7 +686,7 @@ class InstanceNode:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.evaluate(self) or
+                if (cn.when and not cn.when.evaluate_bool(self) or
                     isinstance(cn, CaseNode) and
                         cn.qual_name != cn.parent.default_case):
                     return []
diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index 0734565..f02a2de 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -16,6 +16,7 @@
 # along with Yangson.  If not, see <http://www.gnu.org/licenses/>.
 
 """XPath node-set"""
+from math import isnan
 import re
 from typing import Callable, Union
 from numbers import Number
@@ -39,6 +40,13 @@ def xpath_number(val: XPathValue) -> float:
     return float(text) if number_re.fullmatch(text) else float("nan")
 
 
+def xpath_boolean(val: XPathValue) -> bool:
+    """Convert an XPath value to a boolean as the *boolean* function does."""
+    if isinstance(val, float) and isnan(val):
+        return False
+    return bool(val)
+
+
 def comparison(meth):
     def wrap(self, arg):
         if isinstance(arg, NodeSet):
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index f8f64a5..c24dc91 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1008,7 +1008,7 @@ class DataNode(SchemaNode):
         if iname in pnode.value:
             return pnode
         nm = pnode.put_member(iname, (None,))
-        if not self.when or self.when.evaluate(nm):
+        if not self.when or self.when.evaluate_bool(nm):
             wd = self._default_value(nm, ctype, lazy)
             if wd.value is not None:
                 return wd.up()
@@ -1016,7 +1016,7 @@ class DataNode(SchemaNode):
 
     def _check_must(self, inst: InstanceNode) -> None:
         for m in self.must:
-            if not m.expression.evaluate(inst):
+            if not m.expression.evaluate_bool(inst):
                 raise SemanticError(inst, m.error_tag, m.error_message)
 
     def _pattern_entry(self) -> SchemaPattern:
@@ -1482,7 +1482,7 @@ class ChoiceNode(InternalNode):
 
     def _add_defaults(self, inst: InstanceNode,
                       ctype: Optional[ContentType]) -> InstanceNode:
-        if self.when and not self.when.evaluate(inst):
+        if self.when and not self.when.evaluate_bool(inst):
             return inst
         ac = self._active_case(inst.value)
         if ac:
@@ -1490,7 +1490,7 @@ class ChoiceNode(InternalNode):
         elif self.default_case:
             n = dc = self.get_child(*self.default_case)
             while n is not self:
-                if n.when and not n.when.evaluate(inst):
+                if n.when and not n.when.evaluate_bool(inst):
                     return inst
                 n = n.parent
             return dc._add_defaults(inst, ctype)
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index c85f850..5178837 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -130,7 +130,7 @@ class Conditional(SchemaPattern):
         return not self.when or self._val_when
 
     def _eval_when(self, cnode: "InstanceNode") -> None:
-        self._val_when = bool(self.when.evaluate(cnode))
+        self._val_when = self.when.evaluate_bool(cnode)
 
     def _active(self, ctype: ContentType) -> bool:
         return super()._active(ctype) and self.check_when()
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index bebd6ca..f387dbc 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor, isnan
+from math import ceil, copysign, floor
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -35,7 +35,7 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue, xpath_number
+from .nodeset import NodeExpr, NodeSet, XPathValue, xpath_boolean, xpath_number
 from .typealiases import QualName
 
 
@@ -74,6 +74,21 @@ class Expr:
         """
         return self._eval(XPathContext(node, node, 1, 1))
 
+    def evaluate_bool(self, node: InstanceNode) -> bool:
+        """Evaluate the receiver and convert the result to a boolean.
+
+        Args:
+            node: Context node for XPath evaluation.
+
+        Raises:
+            XPathTypeError: If a subexpression of the receiver is of a wrong
+                type.
+        """
+        return xpath_boolean(self.evaluate(node))
+
+    def _eval_bool(self, xctx: XPathContext) -> bool:
+        return xpath_boolean(self._eval(xctx))
+
     def _eval_float(self, xctx: XPathContext) -> float:
         return xpath_number(self._eval(xctx))
 
@@ -209,7 +224,7 @@ class OrExpr(BinaryExpr):
         return self._as_str("or")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) or self.right._eval(xctx)
+        return self.left._eval_bool(xctx) or self.right._eval_bool(xctx)
 
 
 class AndExpr(BinaryExpr):
@@ -220,7 +235,7 @@ class AndExpr(BinaryExpr):
         return self._as_str("and")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) and self.right._eval(xctx)
+        return self.left._eval_bool(xctx) and self.right._eval_bool(xctx)
 
 
 class EqualityExpr(BinaryExpr):
@@ -538,10 +553,7 @@ class FuncBitIsSet(BinaryExpr):
 class FuncBoolean(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        val = self.expr._eval(xctx)
-        if isinstance(val, float) and isnan(val):
-            return False
-        return bool(val)
+        return self.expr._eval_bool(xctx)
 
 
 class FuncCeiling(UnaryExpr):
@@ -710,7 +722,7 @@ class FuncNormalizeSpace(UnaryExpr):
 class FuncNot(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return not self.expr._eval(xctx)
+        return not self.expr._eval_bool(xctx)
 
 
 class FuncNumber(UnaryExpr):
-- 
2.43.0


From 7715afee3b77d8deecfb594f3a3d014b8046a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 037/116] fix: XPath comparisons of values of different types

---
 yangson/nodeset.py  | 57 ++++++++++++++++-----------------------------
 yangson/xpathast.py | 14 +++++++++++
 2 files changed, 34 insertions(+), 37 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index f02a2de..eed24f3 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -19,7 +19,6 @@
 from math import isnan
 import re
 from typing import Callable, Union
-from numbers import Number
 from .instance import InstanceNode
 
 # Type aliases
@@ -84,8 +83,8 @@ class NodeSet(list):
             if isinstance(val, str):
                 if str(n) == val:
                     return True
-            elif isinstance(n.value, Number):
-                if float(n.value) == val:
+            elif isinstance(val, float):
+                if xpath_number(str(n)) == val:
                     return True
             elif n.value == val:
                 return True
@@ -99,8 +98,8 @@ class NodeSet(list):
             if isinstance(val, str):
                 if str(n) != val:
                     return True
-            elif isinstance(n.value, Number):
-                if float(n.value) != val:
+            elif isinstance(val, float):
+                if xpath_number(str(n)) != val:
                     return True
             elif n.value != val:
                 return True
@@ -108,56 +107,40 @@ class NodeSet(list):
 
     @comparison
     def __gt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
+        val = xpath_number(val)
         for n in self:
-            try:
-                if float(n.value) > val:
-                    return True
-            except (ValueError, TypeError):
+            if n.is_internal():
                 continue
+            if xpath_number(str(n)) > val:
+                return True
         return False
 
     @comparison
     def __lt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
+        val = xpath_number(val)
         for n in self:
-            try:
-                if float(n.value) < val:
-                    return True
-            except (ValueError, TypeError):
+            if n.is_internal():
                 continue
+            if xpath_number(str(n)) < val:
+                return True
         return False
 
     @comparison
     def __ge__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
+        val = xpath_number(val)
         for n in self:
-            try:
-                if float(n.value) >= val:
-                    return True
-            except (ValueError, TypeError):
+            if n.is_internal():
                 continue
+            if xpath_number(str(n)) >= val:
+                return True
         return False
 
     @comparison
     def __le__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
+        val = xpath_number(val)
         for n in self:
-            try:
-                if float(n.value) <= val:
-                    return True
-            except (ValueError, TypeError):
+            if n.is_internal():
                 continue
+            if xpath_number(str(n)) <= val:
+                return True
         return False
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index f387dbc..fef4871 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -257,6 +257,12 @@ class EqualityExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
+        if isinstance(lres, bool) or isinstance(rres, bool):
+            lres, rres = xpath_boolean(lres), xpath_boolean(rres)
+        elif isinstance(lres, float) and isinstance(rres, str):
+            rres = xpath_number(rres)
+        elif isinstance(lres, str) and isinstance(rres, float):
+            lres = xpath_number(lres)
         return lres != rres if self.negate else lres == rres
 
 
@@ -282,6 +288,14 @@ class RelationalExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
+        if isinstance(lres, bool) and isinstance(rres, NodeSet):
+            rres = xpath_boolean(rres)
+        elif isinstance(lres, NodeSet) and isinstance(rres, bool):
+            lres = xpath_boolean(lres)
+        if not isinstance(lres, NodeSet):
+            lres = xpath_number(lres)
+        if not isinstance(rres, NodeSet):
+            rres = xpath_number(rres)
         if self.less:
             return lres <= rres if self.equal else lres < rres
         return lres >= rres if self.equal else lres > rres
-- 
2.43.0


From 484099598cbf4911900157a6772300586dfc524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 038/116] fix: XPath division and modulo of special numbers

---
 yangson/xpathast.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index fef4871..56f110d 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor
+from math import ceil, copysign, floor, fmod, isnan
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -348,11 +348,11 @@ class MultiplicativeExpr(BinaryExpr):
             try:
                 return lres / rres
             except ZeroDivisionError:
-                return (float("nan") if lres == 0.0
-                        else copysign(float('inf'), lres))
+                return (float("nan") if lres == 0.0 or isnan(lres)
+                        else copysign(float('inf'), lres) * copysign(1, rres))
         try:
-            return copysign(lres % rres, lres)
-        except ZeroDivisionError:
+            return fmod(lres, rres)
+        except ValueError:
             return float('nan')
 
 
-- 
2.43.0


From b2f4070152cdcb9a6c1dceb852c2027da661fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 039/116] fix: XPath operators expecting node-sets

---
 yangson/xpathast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 56f110d..4832c40 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -384,6 +384,9 @@ class UnionExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> NodeSet:
         lres, rres = self._eval_ops(xctx)
+        for ns in lres, rres:
+            if not isinstance(ns, NodeSet):
+                raise XPathTypeError(str(ns))
         return lres.union(rres)
 
 
@@ -447,6 +450,8 @@ class FilterExpr(Expr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         res = self.primary._eval(xctx)
+        if self.predicates and not isinstance(res, NodeSet):
+            raise XPathTypeError(str(res))
         return self._apply_predicates(res, xctx)
 
 
-- 
2.43.0


From dc204e2243f73f09c703a84b17c1cf6a7fa17374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 040/116] fix: XPath predicates

---
 yangson/xpathast.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 4832c40..5318f54 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -150,13 +150,8 @@ class Expr:
             size = len(ns)
             for i in range(size):
                 pval = p._eval(XPathContext(ns[i], xctx.origin, i + 1, size))
-                try:
-                    if isinstance(pval, float) and pval > 0:
-                        res.append(ns[int(pval) - 1])
-                        break
-                except IndexError:
-                    return res
-                if pval:
+                if (pval == i + 1 if isinstance(pval, float)
+                        else xpath_boolean(pval)):
                     res.append(ns[i])
             ns = res
         return ns
@@ -459,8 +454,7 @@ class LocationPath(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         lres = self.left._eval(xctx)
-        ns = lres.bind(self.right._node_trans())
-        return self.right._apply_predicates(ns, xctx)
+        return lres.bind(lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
         sep = "" if isinstance(self.left, Root) else "/"
-- 
2.43.0


From 3829b3495140351f52115ad16d35e55551a96b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 041/116] fix: XPath conversion of numbers to strings

---
 yangson/xpathast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 5318f54..7e7b914 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -102,6 +102,7 @@ class Expr:
                 return "Infinity" if val > 0 else "-Infinity"
             except ValueError:
                 return "NaN"
+            return format(decimal.Decimal(repr(val)), "f")
         if isinstance(val, bool):
             return str(val).lower()
         return str(val)
-- 
2.43.0


From 8093fd131476e91b4094523f64721b2eac10cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 042/116] fix: XPath rounding functions and substring

---
 yangson/xpathast.py | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 7e7b914..207a1c4 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor, fmod, isnan
+from math import ceil, copysign, floor, fmod, isfinite, isnan
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -39,6 +39,13 @@ from .nodeset import NodeExpr, NodeSet, XPathValue, xpath_boolean, xpath_number
 from .typealiases import QualName
 
 
+def xpath_round(val: float) -> float:
+    """Round a number as the *round* function does."""
+    dec = decimal.Decimal(val)
+    return float(dec.to_integral_value(
+        decimal.ROUND_HALF_UP if val > 0 else decimal.ROUND_HALF_DOWN))
+
+
 class XPathContext:
 
     def __init__(self, cnode: InstanceNode, origin: InstanceNode,
@@ -573,7 +580,8 @@ class FuncBoolean(UnaryExpr):
 class FuncCeiling(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(ceil(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return float(ceil(val)) if isfinite(val) else val
 
 
 class FuncConcat(Expr):
@@ -682,7 +690,8 @@ class FuncFalse(Expr):
 class FuncFloor(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(floor(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return float(floor(val)) if isfinite(val) else val
 
 
 class FuncLast(Expr):
@@ -771,12 +780,7 @@ class FuncReMatch(BinaryExpr):
 class FuncRound(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        dec = decimal.Decimal(self.expr._eval_float(xctx))
-        try:
-            return float(dec.to_integral_value(
-                decimal.ROUND_HALF_UP if dec > 0 else decimal.ROUND_HALF_DOWN))
-        except decimal.InvalidOperation:
-            return float('nan')
+        return xpath_round(self.expr._eval_float(xctx))
 
 
 class FuncStartsWith(BinaryExpr):
@@ -818,19 +822,12 @@ class FuncSubstring(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.left._eval_string(xctx)
-        rres = self.right._eval_float(xctx)
-        try:
-            start = round(rres) - 1
-        except (ValueError, OverflowError):
-            return "" if self.length or rres != float("-inf") else string
-        if self.length is None:
-            return string[max(start, 0):]
-        length = self.length._eval_float(xctx)
-        try:
-            end = start + round(length)
-        except (ValueError, OverflowError):
-            return string[max(start, 0):] if length == float('inf') else ""
-        return string[max(start, 0):end]
+        start = xpath_round(self.right._eval_float(xctx))
+        end = float("inf")
+        if self.length is not None:
+            end = start + xpath_round(self.length._eval_float(xctx))
+        return "".join(
+            [c for pos, c in enumerate(string, 1) if start <= pos < end])
 
 
 class FuncSubstringAfter(BinaryExpr):
-- 
2.43.0


From 97c62e4c6d073e09899a7011294fb2e1b608a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 043/116] fix: XPath function translate with repeated
 characters

---
 yangson/xpathast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 207a1c4..c72a56a 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -872,9 +872,11 @@ class FuncTranslate(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string, old = self._eval_ops_string(xctx)
-        new = self.nchars._eval_string(xctx)[:len(old)]
-        ttab = str.maketrans(old[:len(new)], new, old[len(new):])
-        return string.translate(ttab)
+        new = self.nchars._eval_string(xctx)
+        ttab: dict[str, str] = {}
+        for pos, c in enumerate(old):
+            ttab.setdefault(c, new[pos:pos+1])
+        return "".join([ttab.get(c, c) for c in string])
 
 
 class FuncTrue(Expr):
-- 
2.43.0


From cf7e99de39411cd8387227edca6f801b518b787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 044/116] fix: XPath function bit-is-set on nodes of other
 types than bits

---
 yangson/datatype.py   | 20 ++++++++++++++++++++
 yangson/schemanode.py |  6 ++++++
 yangson/xpathast.py   |  6 +++---
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index be50c5c..e0295ef 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -129,6 +129,14 @@ class DataType(ABC, Generic[S, RS]):
         """Return the module name used as a prefix in the XML text value."""
         return None
 
+    def _has_bits(self, val: S) -> bool:
+        """Return ``True`` if the argument is a value of a *bits* type."""
+        return False
+
+    def _deref(self, node: InstanceNode) -> list[InstanceNode]:
+        """Return the list of nodes that an instance node refers to."""
+        return []
+
     @abstractmethod
     def parse_value(self, text: str) -> Optional[S]:
         """Parse value of the receiver's type.
@@ -295,6 +303,9 @@ class BitsType(DataType[tuple[str, ...], str]):
                 return False
         return True
 
+    def _has_bits(self, val: ScalarValue) -> bool:
+        return True
+
     def sorted_bits(self) -> list[tuple[str, int]]:
         """Return list of bit items sorted by position."""
         return sorted(self.bit.items(), key=lambda x: x[1])
@@ -681,6 +692,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
             raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
         self.ref_type = ref.type
 
+    def _has_bits(self, val: ScalarValue) -> bool:
+        return self.ref_type._has_bits(val)
+
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
         res["ref_type"] = self.ref_type._type_digest(config)
@@ -1121,6 +1135,12 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return t.to_xml(val)
         return None
 
+    def _has_bits(self, val: ScalarValue) -> bool:
+        for t in self.types:
+            if val in t:
+                return t._has_bits(val)
+        return False
+
     def _xml_module(self, val: ScalarValue) -> Optional[YangIdentifier]:
         for t in self.types:
             if val in t:
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c24dc91..591e984 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -383,6 +383,9 @@ class SchemaNode:
     def _is_identityref(self) -> bool:
         return False
 
+    def _has_bits(self, val: Value) -> bool:
+        return False
+
     def _tree_line(self, no_type: bool = False) -> str:
         """Return the receiver's contribution to tree diagram."""
         return f"{self._tree_line_prefix()} {self._tree_name()}"
@@ -1121,6 +1124,9 @@ class TerminalNode(SchemaNode):
     def _is_identityref(self) -> bool:
         return isinstance(self.type, IdentityrefType)
 
+    def _has_bits(self, val: Value) -> bool:
+        return self.type._has_bits(val)
+
     def _ascii_tree(self, indent: str, no_types: bool, val_count: bool) -> str:
         return ""
 
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index c72a56a..0db2bf9 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -565,10 +565,10 @@ class FuncBitIsSet(BinaryExpr):
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
         bit = self.right._eval_string(xctx)
-        try:
-            return bit in ns[0].value
-        except (IndexError, TypeError):
+        if not ns:
             return False
+        node = ns[0]
+        return node.schema_node._has_bits(node.value) and bit in node.value
 
 
 class FuncBoolean(UnaryExpr):
-- 
2.43.0


From b1984226f12302feea00cd4a71841984da8962b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 045/116] fix: XPath functions derived-from on nodes of other
 types

---
 yangson/xpathast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 0db2bf9..734d9f1 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -657,7 +657,7 @@ class FuncDerivedFrom(BinaryExpr):
             self.right._eval_string(xctx), self.sctx.text_mid)
         for n in ns:
             if not n.schema_node._is_identityref():
-                return False
+                continue
             if self.or_self and n.value == i:
                 return True
             if self.sctx.schema_data.is_derived_from(n.value, i):
-- 
2.43.0


From a1913edd69bb2233d9dc896389fc4a6b4991c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 046/116] fix: XPath function deref on other nodes than
 references

---
 yangson/datatype.py | 10 +++++++---
 yangson/xpathast.py |  3 +--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index e0295ef..dd68b80 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -53,8 +53,9 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 
 from .constraint import Intervals, Pattern
 from .exceptions import (
-    InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, XPathTypeError)
+    InstanceException, InvalidArgument, InvalidLeafrefPath,
+    ModuleNotRegistered, NonexistentSchemaNode, ParserException,
+    UnknownPrefix, XPathTypeError)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -745,7 +746,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
-        return [node.top().goto(cast(InstanceRoute, node.value))]
+        try:
+            return [node.top().goto(cast(InstanceRoute, node.value))]
+        except (InstanceException, NonexistentSchemaNode):
+            return []
 
 
 class IdentityrefType(DataType[QualName, YangIdentifier]):
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 734d9f1..319dfd3 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -630,8 +630,7 @@ class FuncDeref(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        ref = ns[0]
-        return NodeSet(ref._deref())
+        return NodeSet(ns[0]._deref() if ns else [])
 
 
 class FuncDerivedFrom(BinaryExpr):
-- 
2.43.0


From 42583936b1c7f4fa80880909e54dbc031e9e1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 047/116] fix: XPath functions name and local-name of other
 values than node-sets

---
 yangson/xpathast.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 319dfd3..075ee16 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -720,12 +720,11 @@ class FuncName(UnaryExpr):
             node = xctx.cnode
         else:
             ns = self.expr._eval(xctx)
-            try:
-                node = ns[0]
-            except TypeError:
+            if not isinstance(ns, NodeSet):
                 raise XPathTypeError(str(ns))
-            except IndexError:
+            if not ns:
                 return ""
+            node = ns[0]
         if node.parinst is None:
             return ""
         if self.local:
-- 
2.43.0


From 1a46d93ad854003447d093e90f9653c8de1f5795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 048/116] fix: recognition of XPath function names

---
 yangson/xpathparser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 3df7793..d7ba180 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -204,13 +204,13 @@ class XPathParser(Parser):
         if fname is None:
             prim = self._or_expr()
         else:
-            mname = "_func_" + fname.replace("-", "_")
-            try:
-                prim = getattr(self, mname)()
-            except AttributeError:
+            meth = ("_" not in fname and
+                    getattr(self, "_func_" + fname.replace("-", "_"), None))
+            if not meth:
                 if fname in ("id", "lang", "namespace-uri"):
-                    raise NotSupported(self, f"function '{fname}()'") from None
-                raise InvalidXPath(self) from None
+                    raise NotSupported(self, f"function '{fname}()'")
+                raise InvalidXPath(self)
+            prim = meth()
         self.char(")")
         self.skip_ws()
         return FilterExpr(prim, self._predicates())
-- 
2.43.0


From 3407058acd785a85373a24f49b19984c86495409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 049/116] fix: XPath root location path inside an expression

---
 yangson/xpathparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index d7ba180..636852a 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -230,7 +230,9 @@ class XPathParser(Parser):
     def _location_path(self) -> LocationPath:
         if self.test_string("/"):
             self.skip_ws()
-            if self.at_end():
+            if self.at_end() or not (
+                    self.input[self.offset] in "*./" or
+                    self.ident_re.match(self.input, self.offset)):
                 return Root()
             op1 = LocationPath(Root(), self._step())
         else:
-- 
2.43.0


From e8536a2bc24e07b491e0b402543b5cfd6cf57533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 050/116] fix: XPath relative location paths after a filter
 expression

---
 yangson/xpathparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 636852a..3b9fb7a 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -197,7 +197,8 @@ class XPathParser(Parser):
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
         if self.test_string("/"):
-            return PathExpr(fexpr, self._location_path())
+            self.skip_ws()
+            return PathExpr(fexpr, self._relative_path(self._step()))
         return fexpr
 
     def _filter_expr(self, fname: str) -> Expr:
@@ -237,6 +238,9 @@ class XPathParser(Parser):
             op1 = LocationPath(Root(), self._step())
         else:
             op1 = self._step()
+        return self._relative_path(op1)
+
+    def _relative_path(self, op1: Expr) -> Expr:
         while self.test_string("/"):
             self.skip_ws()
             op2 = self._step()
-- 
2.43.0


From af0d9e9929f397b73c2f5cdc7330219c3648423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 051/116] fix: abbreviated descendant steps in XPath

---
 yangson/xpathparser.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 3b9fb7a..41239c4 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -197,8 +197,12 @@ class XPathParser(Parser):
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
         if self.test_string("/"):
-            self.skip_ws()
-            return PathExpr(fexpr, self._relative_path(self._step()))
+            if self.test_string("/"):
+                op1 = self._descendant_step()
+            else:
+                self.skip_ws()
+                op1 = self._step()
+            return PathExpr(fexpr, self._relative_path(op1))
         return fexpr
 
     def _filter_expr(self, fname: str) -> Expr:
@@ -230,9 +234,11 @@ class XPathParser(Parser):
 
     def _location_path(self) -> LocationPath:
         if self.test_string("/"):
+            if self.test_string("/"):
+                return self._relative_path(self._descendant_step(Root()))
             self.skip_ws()
             if self.at_end() or not (
-                    self.input[self.offset] in "*./" or
+                    self.input[self.offset] in "*." or
                     self.ident_re.match(self.input, self.offset)):
                 return Root()
             op1 = LocationPath(Root(), self._step())
@@ -242,11 +248,20 @@ class XPathParser(Parser):
 
     def _relative_path(self, op1: Expr) -> Expr:
         while self.test_string("/"):
+            if self.test_string("/"):
+                op1 = self._descendant_step(op1)
+                continue
             self.skip_ws()
             op2 = self._step()
             op1 = LocationPath(op1, op2)
         return op1
 
+    def _descendant_step(self, op1: Optional[Expr] = None) -> LocationPath:
+        dos = Step(Axis.descendant_or_self, None, [])
+        self.skip_ws()
+        return LocationPath(
+            dos if op1 is None else LocationPath(op1, dos), self._step())
+
     def _step(self) -> Step:
         return Step(*self._axis_qname(), self._predicates())
 
@@ -255,9 +270,6 @@ class XPathParser(Parser):
         if next == "*":
             self.adv_skip_ws()
             return (Axis.child, False)
-        if next == "/":
-            self.skip_ws()
-            return (Axis.descendant_or_self, None)
         if next == ".":
             self.offset += 1
             res = (Axis.parent if self.test_string(".") else Axis.self, None)
-- 
2.43.0


From 52cc03b72132232dd8a31c992a19ca497ef022ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 052/116] fix: XPath operator names must be delimited

---
 yangson/xpathparser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 41239c4..721b74d 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -67,9 +67,15 @@ class XPathParser(Parser):
         self.skip_ws()
         return self._or_expr()
 
+    def _operator_name(self, name: str) -> bool:
+        """Skip the operator with the given name if it comes next."""
+        mo = self.ident_re.match(self.input, self.offset)
+        return (mo is not None and mo.group() == name and
+                self.test_string(name))
+
     def _or_expr(self) -> Expr:
         op1 = self._and_expr()
-        while self.test_string("or"):
+        while self._operator_name("or"):
             self.skip_ws()
             op2 = self._and_expr()
             op1 = OrExpr(op1, op2)
@@ -77,7 +83,7 @@ class XPathParser(Parser):
 
     def _and_expr(self) -> Expr:
         op1 = self._equality_expr()
-        while self.test_string("and"):
+        while self._operator_name("and"):
             self.skip_ws()
             op2 = self._equality_expr()
             op1 = AndExpr(op1, op2)
@@ -139,9 +145,9 @@ class XPathParser(Parser):
         while True:
             if self.test_string("*"):
                 mulop = MultiplicativeOp.multiply
-            elif self.test_string("div"):
+            elif self._operator_name("div"):
                 mulop = MultiplicativeOp.divide
-            elif self.test_string("mod"):
+            elif self._operator_name("mod"):
                 mulop = MultiplicativeOp.modulo
             else:
                 return op1
-- 
2.43.0


From 024d6afc90c0b1ea77363259a714f052cb484869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 053/116] fix: XPath numbers with a trailing period

---
 yangson/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/parser.py b/yangson/parser.py
index df76597..0ed610b 100644
--- a/yangson/parser.py
+++ b/yangson/parser.py
@@ -47,7 +47,7 @@ class Parser:
     uint_re = re.compile(_uint)
     """Regular expression for unsigned integer."""
 
-    ufloat_re = re.compile(fr"{_uint}(\.{_uint})?|\.{_uint}")
+    ufloat_re = re.compile(fr"{_uint}(\.[0-9]*)?|\.{_uint}")
     """Regular expression for unsigned float."""
 
     def __init__(self, text: str) -> None:
-- 
2.43.0


From e11b73bc61cb42b4e0e9844c5d4ac7119987e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 054/116] fix: reject incompletely parsed XPath arguments

---
 yangson/datatype.py   | 11 +++++++++--
 yangson/schemanode.py |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index dd68b80..9dd60a3 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -655,7 +655,10 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         super()._handle_properties(stmt, sctx)
         pathst = cast(Statement, stmt.find1("path", required=True))
-        self.path = XPathParser(cast(str, pathst.argument), sctx).parse()
+        xpp = XPathParser(cast(str, pathst.argument), sctx)
+        self.path = xpp.parse()
+        if not xpp.at_end():
+            raise InvalidArgument(pathst.argument)
 
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
         return self.ref_type.canonical_string(val)
@@ -742,7 +745,11 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     def from_yang(self, text: str) -> InstanceRoute:
         """Override the superclass method."""
-        return XPathParser(text, self.sctx).parse().as_instance_route()
+        xpp = XPathParser(text, self.sctx)
+        res = xpp.parse()
+        if not xpp.at_end():
+            raise InvalidArgument(text)
+        return res.as_instance_route()
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 591e984..e7755ae 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -351,7 +351,10 @@ class SchemaNode:
                 self.must = []
             self._must_stmt(stmt, sctx)
         elif action == "delete":
-            mstr = str(XPathParser(stmt.argument, sctx).parse())
+            xpp = XPathParser(stmt.argument, sctx)
+            mstr = str(xpp.parse())
+            if not xpp.at_end():
+                raise InvalidArgument(stmt.argument)
             for i in range(len(self.must)):
                 if str(self.must[i].expression) == mstr:
                     del self.must[i]
-- 
2.43.0


From 4e2895be359bf87e98c63765c2f0b986e27178a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 055/116] fix: parentheses in the string form of XPath
 expressions

---
 yangson/xpathast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 075ee16..38fa918 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -445,7 +445,10 @@ class FilterExpr(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        return (str(self.primary) +
+        prim = str(self.primary)
+        if self.primary._precedence < self._precedence:
+            prim = "(" + prim + ")"
+        return (prim +
                 "".join([f"[{p}]" for p in self.predicates]))
 
     def _children_ast(self, indent) -> str:
-- 
2.43.0


From 2ab374f79d41229914e4f7a68d1110a88a9d08b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 056/116] fix: parent and siblings of orphan instances

---
 yangson/instance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 95185b6..4623899 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -273,6 +273,8 @@ class InstanceNode:
         Raises:
             NonexistentInstance: If there is no parent.
         """
+        if self.parinst is None:
+            raise NonexistentInstance(self, "up of top")
         ts = max(self.timestamp, self.parinst.timestamp)
         return self.parinst._copy(self._zip(), ts)
 
@@ -811,6 +813,8 @@ class ObjectMember(InstanceNode):
                 schema.
             NonexistentInstance: If sibling member `name` doesn't exist.
         """
+        if self.parinst is None:
+            raise NonexistentInstance(self, f"member '{name}'")
         ssn = self.parinst._member_schema_node(name)
         try:
             sibs = self.siblings.copy()
-- 
2.43.0


From ff73a94f9369871d3d46d02929e1b395e1656faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 057/116] fix: XPath axes at the root and in orphan instances

---
 yangson/instance.py | 13 ++++++++++---
 yangson/xpathast.py | 18 ++++++++++++------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 4623899..c6936ef 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -723,7 +723,7 @@ class InstanceNode:
 
     def _parent(self) -> list["InstanceNode"]:
         """XPath - return the receiver's parent as a singleton list."""
-        return [self.up()]
+        return [] if self.parinst is None else [self.up()]
 
     def _deref(self) -> list["InstanceNode"]:
         """XPath: return the list of nodes that the receiver refers to."""
@@ -746,6 +746,11 @@ class RootNode(InstanceNode):
         """Override the superclass property."""
         return None
 
+    @property
+    def qual_name(self) -> None:
+        """Return ``None``, the root has no name."""
+        return None
+
     def up(self) -> None:
         """Override the superclass method.
 
@@ -850,12 +855,14 @@ class ObjectMember(InstanceNode):
             qname: Union[QualName, bool] = None) -> list[InstanceNode]:
         """XPath - return the list of receiver's ancestors including itself."""
         res = [] if qname and self.qual_name != qname else [self]
-        return res + self.up()._ancestors_or_self(qname)
+        return res + self._ancestors(qname)
 
     def _ancestors(
             self: "ObjectMember",
             qname: Union[QualName, bool] = None) -> list[InstanceNode]:
         """XPath - return the list of receiver's ancestors."""
+        if self.parinst is None:
+            return []
         return self.up()._ancestors_or_self(qname)
 
 
@@ -1044,7 +1051,7 @@ class ArrayEntry(InstanceNode):
 
     def _parent(self) -> list[InstanceNode]:
         """XPath - return the receiver's parent as a singleton list."""
-        return [self.up().up()]
+        return self.up()._parent()
 
 
 class MemberName:
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 38fa918..351c97c 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -28,7 +28,7 @@ from math import ceil, copysign, floor, fmod, isfinite, isnan
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
-from typing import Optional
+from typing import Optional, Union
 from .schemadata import SchemaContext
 from .enumerations import Axis, MultiplicativeOp
 from .exceptions import InvalidArgument, XPathTypeError
@@ -535,6 +535,14 @@ class Step(Expr):
     def _children_ast(self, indent) -> str:
         return self._predicates_str(indent)
 
+    @staticmethod
+    def _node_test(node: InstanceNode,
+                   qname: Union[QualName, bool, None]) -> bool:
+        if qname is None:
+            return True
+        nqn = node.qual_name
+        return nqn == qname if qname else nqn is not None
+
     def _node_trans(self) -> NodeExpr:
         return {
             Axis.ancestor: lambda n, qn=self.qname: n._ancestors(qn),
@@ -546,14 +554,12 @@ class Step(Expr):
                 lambda n, qn=self.qname: n._descendants(qn, True),
             Axis.following_sibling:
                 lambda n, qn=self.qname: n._following_siblings(qn),
-            Axis.parent: (
-                lambda n, qn=self.qname: [] if qn and qn != n.parent.qual_name
-                else n._parent()),
+            Axis.parent: lambda n, qn=self.qname: [
+                p for p in n._parent() if self._node_test(p, qn)],
             Axis.preceding_sibling:
                 lambda n, qn=self.qname: n._preceding_siblings(qn),
             Axis.self:
-                lambda n, qn=self.qname: [] if qn and qn != n.qual_name
-                else [n],
+                lambda n, qn=self.qname: [n] if self._node_test(n, qn) else [],
         }[self.axis]
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
-- 
2.43.0


From 158b328fdc659a692513e03b14d439a80af42f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 058/116] fix: XPath attribute axis

---
 yangson/xpathparser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 721b74d..78a9a2a 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -297,12 +297,12 @@ class XPathParser(Parser):
             next = self.peek()
             if next == ":":
                 self.adv_skip_ws()
+                if yid in ("attribute", "following",
+                           "namespace", "preceding"):
+                    raise NotSupported(self, f"axis '{yid}::'")
                 try:
-                    axis = Axis[yid.replace("-", "_")]
+                    axis = Axis["" if "_" in yid else yid.replace("-", "_")]
                 except KeyError:
-                    if yid in ("attribute", "following",
-                               "namespace", "preceding"):
-                        raise NotSupported(self, f"axis '{yid}::'") from None
                     raise InvalidXPath(self) from None
                 return axis, self._qname()
             if ws:
-- 
2.43.0


From 39ee0cce3764f7902fbf74550777ceba8d03341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 059/116] fix: order of nodes selected by reverse XPath axes

---
 yangson/xpathast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 351c97c..e358a1b 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -564,7 +564,11 @@ class Step(Expr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         ns = NodeSet(self._node_trans()(xctx.cnode))
-        return self._apply_predicates(ns, xctx)
+        res = self._apply_predicates(ns, xctx)
+        if self.axis in (Axis.ancestor, Axis.ancestor_or_self,
+                         Axis.preceding_sibling):
+            res.reverse()       # to document order
+        return res
 
 
 class FuncBitIsSet(BinaryExpr):
-- 
2.43.0


From 6f4143090ea4cb386a21122e61c4df1d48c0feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 060/116] fix: XPath child steps to defaults in choices

---
 yangson/instance.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index c6936ef..825455a 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -684,14 +684,20 @@ class InstanceNode:
             wd = cn._default_instance(self, ContentType.all, lazy=True)
             if iname not in wd.value:
                 return []
+            case = None
             while True:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.evaluate_bool(self) or
-                    isinstance(cn, CaseNode) and
-                        cn.qual_name != cn.parent.default_case):
+                if cn.when and not cn.when.evaluate_bool(self):
                     return []
+                if isinstance(cn, CaseNode):
+                    case = cn
+                elif isinstance(cn, ChoiceNode):
+                    ac = cn._active_case(self.value)
+                    if ac is not case and (
+                            ac or case.qual_name != cn.default_case):
+                        return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
         for mn in wd._member_names():
-- 
2.43.0


From 92045769e82d19ef8ece30ddc964093c1bf2b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 061/116] fix: add no defaults from a uses or augment whose
 condition is false

---
 yangson/schemanode.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e7755ae..4539a02 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -729,7 +729,7 @@ class InternalNode(SchemaNode):
             if isinstance(c, DataNode):
                 inst = c._default_instance(inst, ctype, lazy)
             elif not isinstance(c, (RpcActionNode, NotificationNode)):
-                inst = c._add_defaults(inst, ctype)
+                inst = c._add_defaults(inst, ctype, lazy)
         return inst
 
     def _state_roots(self) -> list[SchemaNode]:
@@ -910,6 +910,13 @@ class GroupNode(InternalNode):
             self._add_child(cn)
             cn._handle_child(node, stmt, sctx)
 
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
+        """Extend the superclass method."""
+        if self.when and not self.when.evaluate_bool(inst):
+            return inst
+        return super()._add_defaults(inst, ctype, lazy)
+
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
@@ -1489,20 +1496,20 @@ class ChoiceNode(InternalNode):
         """Override the superclass property."""
         return self._mandatory
 
-    def _add_defaults(self, inst: InstanceNode,
-                      ctype: Optional[ContentType]) -> InstanceNode:
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
         if self.when and not self.when.evaluate_bool(inst):
             return inst
         ac = self._active_case(inst.value)
         if ac:
-            return ac._add_defaults(inst, ctype)
+            return ac._add_defaults(inst, ctype, lazy)
         elif self.default_case:
             n = dc = self.get_child(*self.default_case)
             while n is not self:
                 if n.when and not n.when.evaluate_bool(inst):
                     return inst
                 n = n.parent
-            return dc._add_defaults(inst, ctype)
+            return dc._add_defaults(inst, ctype, lazy)
         else:
             return inst
 
-- 
2.43.0


From 55c1ca6b38e75ab0df7e5b80acb7ac8ead1829b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 062/116] fix: add defaults to RPC and action messages

---
 yangson/schemanode.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 4539a02..e225286 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1812,6 +1812,10 @@ class InputNode(InternalNode, DataNode):
         """Override the superclass property."""
         return False
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        return pnode
+
     def iname(self) -> InstanceName:
         """Override the superclass method."""
         return self.ns + ":" + self.name
@@ -1835,6 +1839,10 @@ class OutputNode(InternalNode, DataNode):
         """Override the superclass property."""
         return False
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        return pnode
+
     def iname(self) -> InstanceName:
         """Override the superclass method."""
         return self.ns + ":" + self.name
-- 
2.43.0


From 639e9d637bf7b75ce45f174a3100cfb983cbb6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 063/116] fix: add no defaults for obsolete nodes

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e225286..2c445f3 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -726,6 +726,8 @@ class InternalNode(SchemaNode):
     def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
                       lazy: bool = False) -> InstanceNode:
         for c in self.filter_children(ctype):
+            if c._status == NodeStatus.obsolete:
+                continue
             if isinstance(c, DataNode):
                 inst = c._default_instance(inst, ctype, lazy)
             elif not isinstance(c, (RpcActionNode, NotificationNode)):
-- 
2.43.0


From 430ad2aca0019d7694c5cd550c0069d4efc55823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 064/116] fix: feature names starting with not, and repeated
 not, in if-feature

---
 yangson/schemadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 23e2d24..3fe9d1c 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -564,10 +564,11 @@ class FeatureExprParser(Parser):
         return x
 
     def _feature_term(self) -> bool:
+        start = self.offset
         if self.test_string("not"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
-            return not self._feature_atom()
+            if self.skip_ws():
+                return not self._feature_term()
+            self.offset = start     # feature name starting with "not"
         return self._feature_atom()
 
     def _feature_atom(self) -> bool:
-- 
2.43.0


From 13d9864835fc0e80b4ef25095e6904f2b78dd77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 065/116] fix: values of enums and positions of bits without
 explicit number

---
 yangson/datatype.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 9dd60a3..093211f 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -357,13 +357,10 @@ class BitsType(DataType[tuple[str, ...], str]):
             label = cast(str, bst.argument)
             pst = bst.find1("position")
             if pst:
-                pos = int(cast(str, pst.argument))
-                self.bit[label] = pos
-                if pos > nextpos:
-                    nextpos = pos
+                self.bit[label] = int(cast(str, pst.argument))
             else:
                 self.bit[label] = nextpos
-            nextpos += 1
+            nextpos = max(self.bit.values()) + 1
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
@@ -596,13 +593,10 @@ class EnumerationType(DataType[str, str]):
             label = cast(str, est.argument)
             vst = est.find1("value")
             if vst:
-                val = int(cast(str, vst.argument))
-                self.enum[label] = val
-                if val > nextval:
-                    nextval = val
+                self.enum[label] = int(cast(str, vst.argument))
             else:
                 self.enum[label] = nextval
-            nextval += 1
+            nextval = max(self.enum.values()) + 1
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-- 
2.43.0


From 4c244b2a565eeafb13ce78336adead385dc6ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 066/116] fix: positions of bits in schema digest

---
 yangson/datatype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 093211f..2200f09 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -381,6 +381,7 @@ class BitsType(DataType[tuple[str, ...], str]):
                 bits.append(None)
                 i += 1
             bits.append(b[0])
+            i += 1
         res["bits"] = bits
         return res
 
-- 
2.43.0


From c2bc91a8453be85ee219881bfd7ae25ef005c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 067/116] fix: status of a grouping or augment must not be
 given to the node it is used in

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 2c445f3..00da9c9 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -271,6 +271,8 @@ class SchemaNode:
                               sctx: SchemaContext) -> None:
         """Dispatch actions for substatements of `stmt`."""
         for s in stmt.substatements:
+            if s.keyword == "status" and stmt.keyword == "grouping":
+                continue
             if s.prefix:
                 key = (sctx.schema_data.modules[
                     sctx.text_mid].prefix_map[s.prefix][0]
@@ -762,7 +764,7 @@ class InternalNode(SchemaNode):
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
             return
-        if stmt.find1("when"):
+        if stmt.find1("when") or stmt.find1("status"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
-- 
2.43.0


From 5fd7e408b1b4d56a72f0ee9a70d4104fe8b780b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 068/116] fix: augments of nodes defined by a later augment

---
 yangson/datamodel.py  |  5 +++--
 yangson/schemanode.py | 23 ++++++++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index be02446..5d92354 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -234,12 +234,13 @@ class DataModel:
                 self.schema_data, self.schema_data.namespace(mid), mid)
             self.schema._handle_substatements(
                 self.schema_data.modules[mid].statement, sctx)
+        augs = []
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
             mod = self.schema_data.modules[mid].statement
-            for aug in mod.find_all("augment"):
-                self.schema._augment_stmt(aug, sctx)
+            augs.extend((aug, sctx) for aug in mod.find_all("augment"))
+        self.schema._augment_stmts(augs)
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 00da9c9..a2a012d 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -755,20 +755,30 @@ class InternalNode(SchemaNode):
         self._add_child(node)
         node._handle_substatements(stmt, sctx)
 
+    def _augment_stmts(
+            self, augs: list[tuple[Statement, SchemaContext]]) -> None:
+        """Handle **augment** statements that may depend on one another."""
+        while augs:
+            rest = [a for a in augs if not self._augment_stmt(*a)]
+            if len(rest) == len(augs):  # silently ignore missing targets
+                return
+            augs = rest
+
     def _augment_stmt(self, stmt: Statement,
-                      sctx: SchemaContext) -> None:
-        """Handle **augment** statement."""
+                      sctx: SchemaContext) -> bool:
+        """Handle **augment** statement, return ``False`` if not possible."""
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
-            return
+            return True
         target = self.get_schema_descendant(
             sctx.schema_data.sni2route(stmt.argument, sctx))
-        if target is None:      # silently ignore missing target
-            return
+        if target is None:
+            return False
         if stmt.find1("when") or stmt.find1("status"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
         target._handle_substatements(stmt, sctx)
+        return True
 
     def _deviation_stmt(self, stmt: Statement,
                         sctx: SchemaContext) -> None:
@@ -808,8 +818,7 @@ class InternalNode(SchemaNode):
         else:
             sn = self
         sn._handle_substatements(grp, gid)
-        for augst in stmt.find_all("augment"):
-            sn._augment_stmt(augst, sctx)
+        sn._augment_stmts([(a, sctx) for a in stmt.find_all("augment")])
         for refst in stmt.find_all("refine"):
             sn._refine_stmt(refst, sctx)
 
-- 
2.43.0


From 80a095fc6e0b678a9fbc3ecd19641a61cb270bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 069/116] fix: defaults are interpreted in the module where
 they are defined

---
 yangson/datatype.py   | 49 +++++++++++++++++++++++++++++++------------
 yangson/schemanode.py | 12 +++++------
 2 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 2200f09..02dbaba 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -78,6 +78,7 @@ class DataType(ABC, Generic[S, RS]):
         """Initialize the class instance."""
         self.sctx = sctx
         self.default: Optional[S] = None
+        self._default_spec: Optional[tuple[str, SchemaContext]] = None
         self.name = name
         self.error_tag: Optional[str] = None
         self.error_message: Optional[str] = None
@@ -159,13 +160,14 @@ class DataType(ABC, Generic[S, RS]):
         """Return canonical form of a value."""
         return str(val)
 
-    def from_yang(self, text: str) -> S:
+    def from_yang(self, text: str, sctx: Optional[SchemaContext] = None) -> S:
         """Parse value specified as default in a YANG module.
 
         Conformance to the receiving type isn't guaranteed.
 
         Args:
             text: String representation of the value.
+            sctx: Context of the text (that of the receiver if omitted).
 
         Raises:
             InvalidArgument: If the receiver type cannot parse the text.
@@ -192,6 +194,11 @@ class DataType(ABC, Generic[S, RS]):
         """
         pass
 
+    def _process_default(self) -> None:
+        """Set the default value specified by a typedef, if any."""
+        if self._default_spec is not None:
+            self.default = self.from_yang(*self._default_spec)
+
     @classmethod
     def _resolve_type(cls, stmt: Statement, sctx: SchemaContext) -> "DataType":
         typ = cast(str, stmt.argument)
@@ -229,10 +236,7 @@ class DataType(ABC, Generic[S, RS]):
                 res.units = ust.argument
             dfst = tdef.find1("default")
             if dfst:
-                dval = cast(str, dfst.argument)
-                res.default = res.from_yang(dval)
-                if res.default is None:
-                    raise InvalidArgument(dval)
+                res._default_spec = (cast(str, dfst.argument), tsc)
         res._handle_restrictions(stmt, sctx)
         return res
 
@@ -676,8 +680,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
-    def from_yang(self, text: str) -> ScalarValue:
-        return self.ref_type.from_yang(text)
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> ScalarValue:
+        return self.ref_type.from_yang(text, sctx or self.sctx)
 
     def _deref(self, node: InstanceNode) -> list[InstanceNode]:
         ns = self.path.evaluate(node)
@@ -689,7 +694,10 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         ref = tnode._follow_leafref(self.path, tnode)
         if ref is None:
             raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
+        first = not hasattr(self, "ref_type")
         self.ref_type = ref.type
+        if first:               # the referred type may be a leafref, too
+            self.ref_type._post_process(ref)
 
     def _has_bits(self, val: ScalarValue) -> bool:
         return self.ref_type._has_bits(val)
@@ -738,9 +746,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         """Override the superclass method."""
         return str(val)
 
-    def from_yang(self, text: str) -> InstanceRoute:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> InstanceRoute:
         """Override the superclass method."""
-        xpp = XPathParser(text, self.sctx)
+        xpp = XPathParser(text, sctx or self.sctx)
         res = xpp.parse()
         if not xpp.at_end():
             raise InvalidArgument(text)
@@ -808,11 +817,12 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def _xml_module(self, val: QualName) -> Optional[YangIdentifier]:
         return val[1]
 
-    def from_yang(self, text: YangIdentifier) -> QualName:
+    def from_yang(self, text: YangIdentifier,
+                  sctx: Optional[SchemaContext] = None) -> QualName:
         """Override the superclass method."""
+        sctx = sctx or self.sctx
         try:
-            return self.sctx.schema_data.translate_pname(
-                text, self.sctx.text_mid)
+            return sctx.schema_data.translate_pname(text, sctx.text_mid)
         except (ModuleNotRegistered, UnknownPrefix):
             raise InvalidArgument(text)
 
@@ -990,7 +1000,8 @@ class IntegralType(NumericType[int, RN]):
         return (self.parse_value(xml.text.strip())
                 if isinstance(xml.text, str) else None)
 
-    def from_yang(self, text: str) -> int:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> int:
         """Override the superclass method."""
         mo = self.octhex.match(text)
         if mo:
@@ -1166,6 +1177,18 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return val
         return None
 
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> ScalarValue:
+        """Override the superclass method."""
+        for t in self.types:
+            try:
+                val = t.from_yang(text, sctx or self.sctx)
+            except (InvalidArgument, ParserException):
+                continue
+            if val in t:
+                return val
+        raise InvalidArgument(text)
+
     def from_raw(self, raw: RawScalar) -> Optional[ScalarValue]:
         for t in self.types:
             val = t.from_raw(raw)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a2a012d..1f29d81 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1143,6 +1143,7 @@ class TerminalNode(SchemaNode):
     def _post_process(self) -> None:
         super()._post_process()
         self.type._post_process(self)
+        self.type._process_default()
 
     def _is_identityref(self) -> bool:
         return isinstance(self.type, IdentityrefType)
@@ -1635,14 +1636,14 @@ class LeafNode(DataNode, TerminalNode):
         if self._mandatory:
             self.parent._add_mandatory_child(self)
         elif self._default is not None:
-            self._default = self.type.from_yang(self._default)
+            self._default = self.type.from_yang(*self._default)
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line() + ("" if self._mandatory else "?")
         return res if no_type else f"{res} <{self.type}>"
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        self._default = stmt.argument
+        self._default = (stmt.argument, sctx)
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1675,9 +1676,8 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if self._default is None:
-            self._default = [stmt.argument]
-        else:
-            self._default.append(stmt.argument)
+            self._default = []
+        self._default.append((stmt.argument, sctx))
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1696,7 +1696,7 @@ class LeafListNode(SequenceNode, TerminalNode):
         super()._post_process()
         if self._default is not None:
             self._default = ArrayValue(
-                [self.type.from_yang(v) for v in self._default])
+                [self.type.from_yang(*v) for v in self._default])
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line()
-- 
2.43.0


From 567fd5ce533c07ccfec06fe0fc6dc38105b12cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 070/116] fix: refine description, config true and leaf-list
 defaults

---
 yangson/schemanode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 1f29d81..731b9a3 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -314,8 +314,8 @@ class SchemaNode:
         pass
 
     def _config_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        if stmt.argument == "false":
-            self._ctype = ContentType.nonconfig
+        self._ctype = (ContentType.nonconfig if stmt.argument == "false"
+                       else None)
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if stmt.argument == "deprecated":
@@ -799,6 +799,9 @@ class InternalNode(SchemaNode):
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
             target.parent.children.remove(target)
         else:
+            if isinstance(target, LeafListNode) and stmt.find1("default"):
+                target._default = None
+            target._get_description(stmt)
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From 46ea9124d8c116aa224b16f86304269b9a7f705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 071/116] fix: deviations of unique and of leaf-list defaults

---
 yangson/schemanode.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 731b9a3..4e745e1 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1476,9 +1476,9 @@ class ListNode(SequenceNode, InternalNode):
                 self.unique = []
             self._unique_stmt(stmt, sctx)
         elif action == "delete":
-            uniq = self._parse_unique(stmt, sctx)
+            uniq = [str(u) for u in self._parse_unique(stmt, sctx)]
             for i in range(len(self.unique)):
-                if self.unique[i] == uniq:
+                if [str(u) for u in self.unique[i]] == uniq:
                     del self.unique[i]
                     return
 
@@ -1685,15 +1685,12 @@ class LeafListNode(SequenceNode, TerminalNode):
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
         if action in ("add", "replace"):
-            if action == "replace":
-                self._default = []
+            if action == "replace" and stmt is stmt.superstmt.find1("default"):
+                self._default = None
             self._default_stmt(stmt, sctx)
         elif action == "delete":
-            val = self.type.parse_value(stmt.argument)
-            for i in range(len(self._default)):
-                if self._default[i] == val:
-                    del self._default[i]
-                    return
+            self._default = [
+                d for d in self._default or () if d[0] != stmt.argument] or None
 
     def _post_process(self) -> None:
         super()._post_process()
-- 
2.43.0


From 300c4c15837349d77831b3f0cfd5a97e1a28365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 072/116] fix: default values of leaf-lists in schema digest

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 4e745e1..d0a6066 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1105,7 +1105,9 @@ class TerminalNode(SchemaNode):
         res["type"] = self.type._type_digest(self.config)
         df = self.default
         if df is not None:
-            res["default"] = self.type.to_raw(df)
+            res["default"] = ([self.type.to_raw(v) for v in df]
+                              if isinstance(df, ArrayValue)
+                              else self.type.to_raw(df))
         if self.units:
             res["units"] = self.units
         return res
-- 
2.43.0


From 53a3af52e59bc87ced911313d756b033ddcb7ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 073/116] fix: names of conditional nodes in ASCII tree

---
 yangson/schemanode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index d0a6066..b110568 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -236,7 +236,10 @@ class SchemaNode:
 
     def _tree_name(self) -> str:
         """Return the receiver's name to be displayed in ASCII tree."""
-        return cast(str, self.name if self.parent and self.ns == self.parent.ns
+        parent = self.parent
+        while parent and parent.name is None:
+            parent = parent.parent
+        return cast(str, self.name if parent and self.ns == parent.ns
                     else f"{self.ns}:{self.name}")
 
     def _validate(self, inst: InstanceNode, scope: ValidationScope,
-- 
2.43.0


From 4234d73cdeac1d9083b728fc44bcce3b82bff95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 074/116] fix: order of identities in schema digest

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 02dbaba..9b1bdc3 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -844,7 +844,7 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
         if config:
-            res["identities"] = list(
+            res["identities"] = sorted(
                 self.sctx.schema_data.derived_from_all(self.bases))
         return res
 
-- 
2.43.0


From f9c5e70e19130bb7a47bc68f14376d7fe9891247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 075/116] fix: name of types derived from instance-identifier

---
 yangson/datatype.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 9b1bdc3..10d7356 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -711,9 +711,6 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
 class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
     """Class representing YANG "instance-identifier" type."""
 
-    def __str__(self):
-        return "instance-identifier"
-
     def __contains__(self, val: InstanceRoute) -> bool:
         if isinstance(val, InstanceRoute):
             return True
-- 
2.43.0


From 5706fc7772cecdae2cf45781b8bdb64f00454564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 076/116] fix: parameters of operations and notifications are
 no data children of their parent

---
 yangson/schemanode.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index b110568..54d1abc 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -301,9 +301,11 @@ class SchemaNode:
             return lft._follow_leafref(xpath.right, init)
         elif isinstance(xpath, Step):
             if xpath.axis == Axis.parent:
-                if isinstance(self, SchemaTreeNode):
-                    return None
-                return self.data_parent() or self.schema_root()
+                parent = self.parent
+                while parent and parent.parent and not isinstance(
+                        parent, (DataNode, NotificationNode)):
+                    parent = parent.parent
+                return parent
             elif xpath.axis == Axis.child:
                 if isinstance(self, InternalNode) and xpath.qname:
                     qname = (xpath.qname if xpath.qname[1]
@@ -513,8 +515,9 @@ class InternalNode(SchemaNode):
             if child.name == name and child.ns == ns:
                 if isinstance(child, DataNode):
                     return child
-                todo.insert(0, child)
-            elif not isinstance(child, DataNode):
+                if not isinstance(child, SchemaTreeNode):
+                    todo.insert(0, child)
+            elif not isinstance(child, (DataNode, SchemaTreeNode)):
                 todo.append(child)
         for c in todo:
             res = c.get_data_child(name, ns)
-- 
2.43.0


From 39b6e10ea0f81b29794e477d6ca9a03d8db40124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 077/116] fix: notifications in schema digest

---
 yangson/schemanode.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 54d1abc..feb68c4 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1881,6 +1881,12 @@ class NotificationNode(SchemaTreeNode):
         self.default_deny: DefaultDeny = DefaultDeny.none
         self._ctype = ContentType.nonconfig
 
+    def iname(self) -> InstanceName:
+        """Override the superclass method."""
+        parent = SchemaNode.data_parent(self)
+        return cast(InstanceName, self.name if parent and self.ns == parent.ns
+                    else self.ns + ":" + self.name)
+
     def _validate(self, inst: InstanceNode, scope: ValidationScope,
                   ctype: ContentType) -> None:
         """Extend the superclass method."""
-- 
2.43.0


From 74dc44a4221f7e601d13736f2ec75238ffe21201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 078/116] fix: status of operations and notifications in a
 deprecated node

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index feb68c4..4e47090 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1788,6 +1788,7 @@ class RpcActionNode(SchemaTreeNode):
         super().__init__()
         self.default_deny: DefaultDeny = DefaultDeny.none
         self._ctype = ContentType.nonconfig
+        self._status = None
 
     def iname(self) -> InstanceName:
         """Override the superclass method."""
@@ -1880,6 +1881,7 @@ class NotificationNode(SchemaTreeNode):
         super().__init__()
         self.default_deny: DefaultDeny = DefaultDeny.none
         self._ctype = ContentType.nonconfig
+        self._status = None
 
     def iname(self) -> InstanceName:
         """Override the superclass method."""
-- 
2.43.0


From b38311258b1035438303a98e1b1edb4960701451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 079/116] fix: operations and notifications from conditional
 uses or augment

---
 yangson/schemanode.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 4e47090..4fdb4ab 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -661,8 +661,12 @@ class InternalNode(SchemaNode):
             cdig = rc[c.iname()] = c._node_digest()
             if self.config and not c.config:
                 cdig["config"] = False
-        for c in [c for c in self.children if isinstance(c, SchemaTreeNode)]:
-            rc[c.iname()] = c._node_digest()
+        todo = list(self.children)
+        for c in todo:
+            if isinstance(c, SchemaTreeNode):
+                rc[c.iname()] = c._node_digest()
+            elif isinstance(c, GroupNode):
+                todo.extend(c.children)
         return res
 
     def _validate(self, inst: InstanceNode,
@@ -1796,7 +1800,7 @@ class RpcActionNode(SchemaTreeNode):
 
     def data_parent(self) -> None:
         """Override the superclass method."""
-        return self.parent
+        return SchemaNode.data_parent(self)
 
     def _handle_substatements(self, stmt: Statement,
                               sctx: SchemaContext) -> None:
-- 
2.43.0


From bbbc61082c655c71c42bb89d9c3995e724d7df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 080/116] fix: no case for a shorthand node with unsupported
 feature

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 4fdb4ab..17c5140 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -929,7 +929,7 @@ class GroupNode(InternalNode):
         if not isinstance(
                 self.parent, ChoiceNode) or isinstance(node, CaseNode):
             super()._handle_child(node, stmt, sctx)
-        else:
+        elif sctx.schema_data.if_features(stmt, sctx.text_mid):
             cn = CaseNode()
             cn.name = stmt.argument
             cn.ns = sctx.default_ns
@@ -1589,7 +1589,7 @@ class ChoiceNode(InternalNode):
                       sctx: SchemaContext) -> None:
         if isinstance(node, CaseNode):
             super()._handle_child(node, stmt, sctx)
-        else:
+        elif sctx.schema_data.if_features(stmt, sctx.text_mid):
             cn = CaseNode()
             cn.name = stmt.argument
             cn.ns = sctx.default_ns
-- 
2.43.0


From 358003810a9866b599c5c0383956a0430654e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 081/116] fix: identities derived through an identity of an
 import-only module

---
 yangson/datamodel.py | 6 ++++++
 yangson/datatype.py  | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 5d92354..71eb86d 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -229,6 +229,12 @@ class DataModel:
         return json.dumps(res)
 
     def _build_schema(self) -> None:
+        for mid, mdata in self.schema_data.modules.items():
+            if mdata.main_module[0] not in self.schema_data.implement:
+                sctx = SchemaContext(
+                    self.schema_data, self.schema_data.namespace(mid), mid)
+                for idst in mdata.statement.find_all("identity"):
+                    self.schema._identity_stmt(idst, sctx)
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/datatype.py b/yangson/datatype.py
index 10d7356..cd9660e 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -770,7 +770,8 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
 
     def __contains__(self, val: QualName) -> bool:
         for b in self.bases:
-            if not self.sctx.schema_data.is_derived_from(val, b):
+            if not (self.sctx.schema_data.is_derived_from(val, b) and
+                    val[1] in self.sctx.schema_data.implement):
                 self._set_error_info(
                     error_message=f"'{self.canonical_string(val)}'" +
                     f" not derived from '{self.canonical_string(b)}'")
@@ -842,7 +843,8 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         res = super()._type_digest(config)
         if config:
             res["identities"] = sorted(
-                self.sctx.schema_data.derived_from_all(self.bases))
+                i for i in self.sctx.schema_data.derived_from_all(self.bases)
+                if i[1] in self.sctx.schema_data.implement)
         return res
 
 
-- 
2.43.0


From 1f231239be2cbe368545c4f6372b75f86c452563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 082/116] fix: process modules in an order that does not depend
 on string hashes

The sets of modules in _process_imports were iterated, so that the order
of schema nodes (and hence of the schema digest and tree diagram) changed
from run to run.
---
 yangson/schemadata.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 3fe9d1c..5a8762c 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -195,11 +195,11 @@ class SchemaData:
         raise ModuleNotFound(name, rev)
 
     def _process_imports(self) -> None:
-        impl = set(self.implement.items())
+        impl = list(self.implement.items())
         if len(impl) == 0:
             return
         deps = {mid: set() for mid in impl}
-        impby = {mid: set() for mid in impl}
+        impby = {mid: [] for mid in impl}
         for mid in self.modules:
             mod = self.modules[mid].statement
             for impst in mod.find_all("import"):
@@ -216,14 +216,16 @@ class SchemaData:
                 mm = self.modules[mid].main_module
                 if mm in impl and imid in impl:
                     deps[mm].add(imid)
-                    impby[imid].add(mm)
+                    if mm not in impby[imid]:
+                        impby[imid].append(mm)
         free = [mid for mid in deps if len(deps[mid]) == 0]
         if not free:
             raise CyclicImports()
         while free:
             nid = free.pop()
             self._module_sequence.append(nid)
-            self._module_sequence.extend(self.modules[nid].submodules)
+            self._module_sequence.extend(
+                sorted(self.modules[nid].submodules))
             for mid in impby[nid]:
                 deps[mid].remove(nid)
                 if len(deps[mid]) == 0:
-- 
2.43.0


From ec0ead0276baaababee5a2c8a3064de13c7311f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 083/116] fix: order of bits in a raw value does not make a
 different value

The values 'p q' and 'q p' of a bits type are equal (RFC 7950, sec. 9.7.2),
but they were cooked to different tuples, so that they could coexist as
leaf-list values or list keys, and were not matched by merge and leafref.
---
 yangson/datatype.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index cd9660e..119f3be 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -317,9 +317,12 @@ class BitsType(DataType[tuple[str, ...], str]):
 
     def from_raw(self, raw: str) -> Optional[tuple[str, ...]]:
         try:
-            return tuple(raw.split())
+            bits = raw.split()
         except AttributeError:
             return None
+        if all(b in self.bit for b in bits):
+            bits.sort(key=lambda b: self.bit[b])
+        return tuple(bits)
 
     def parse_value(self, text: str) -> Optional[tuple[str, ...]]:
         return self.from_raw(text)
-- 
2.43.0


From 81da0b2d9476957ae6d77794ec12abf489e236c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 084/116] fix: a boolean and a number are different values of a
 union

The values true and 1 of a union type were taken for equal (as they are in
Python) by the uniqueness checks of leaf-lists, keys and 'unique', and by merge.
---
 yangson/instance.py   |  9 +++++----
 yangson/instvalue.py  |  8 ++++++++
 yangson/schemanode.py | 11 ++++++-----
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 825455a..477ca71 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -46,7 +46,7 @@ from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
                          YangTypeError)
 from .instroute import InstanceRoute
 from .instvalue import (ArrayValue, InstanceKey, ObjectValue, Value,
-                        ScalarValue, StructuredValue)
+                        ScalarValue, StructuredValue, distinct)
 from .parser import Parser
 from .typealiases import (InstanceName, JSONPointer, QualName, RawScalar,
                           RawValue, SchemaRoute, YangIdentifier)
@@ -328,18 +328,19 @@ class InstanceNode:
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
         inst = self._copy(self.value)
         if isinstance(self.schema_node, LeafListNode):
+            old = {distinct(en) for en in self.value}
             return inst._copy(ArrayValue(inst.value + [
-                en for en in value if en in set(value) - set(self.value)]))
+                en for en in value if distinct(en) not in old]))
         keys = self.schema_node._key_members
         mki = {}
         rest = []
         for i in range(len(value)):
             if keys and all(k in value[i] for k in keys):
-                mki[tuple([value[i][k] for k in keys])] = i
+                mki[tuple([distinct(value[i][k]) for k in keys])] = i
             else:
                 rest.append(i)
         for i in range(len(self.value)):
-            kval = tuple([self.value[i].get(k) for k in keys])
+            kval = tuple([distinct(self.value[i].get(k)) for k in keys])
             if kval in mki:
                 inst = inst[i].merge(value[mki[kval]]).up()
                 del mki[kval]
diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index c293d90..f2cc81f 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -41,6 +41,14 @@ MetadataObject = dict[PrefName, ScalarValue]
 """Metadata object [RFC 7952]_."""
 
 
+def distinct(value: ScalarValue) -> tuple[bool, ScalarValue]:
+    """Return a hashable that is equal only for equal YANG values.
+
+    Unlike in Python, a boolean value never equals a number.
+    """
+    return isinstance(value, bool), value
+
+
 class StructuredValue:
     """Abstract class for array and object values."""
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 17c5140..f7650bc 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -58,7 +58,7 @@ from .exceptions import (
 from .instance import (ArrayEntry, InstanceNode, MemberName, ObjectMember)
 from .instroute import InstanceRoute
 from .instvalue import (
-    ArrayValue, EntryValue, MetadataObject, ObjectValue, Value)
+    ArrayValue, EntryValue, MetadataObject, ObjectValue, Value, distinct)
 from .schemadata import IdentityAdjacency, SchemaContext, SchemaData
 from .schpattern import (ChoicePattern, ConditionalPattern, Empty, Member,
                          NotAllowed, Pair, SchemaPattern)
@@ -1427,10 +1427,11 @@ class ListNode(SequenceNode, InternalNode):
             except KeyError as e:
                 raise SchemaError(inst._entry(i),
                                   "list-key-missing", e.args[0]) from None
-            if kval in ukeys:
+            ukey = tuple([distinct(v) for v in kval])
+            if ukey in ukeys:
                 raise SemanticError(inst, "non-unique-key",
                                     repr(kval[0] if len(kval) < 2 else kval))
-            ukeys.add(kval)
+            ukeys.add(ukey)
 
     def _check_unique(self, unique: list[LocationPath],
                       inst: InstanceNode) -> None:
@@ -1440,7 +1441,7 @@ class ListNode(SequenceNode, InternalNode):
             den = en.add_defaults()
             uvals = []
             for uex in unique:
-                uval = [n.value for n in uex.evaluate(den)]
+                uval = [distinct(n.value) for n in uex.evaluate(den)]
                 uvals.append(uval)
             tups = set(product(*uvals))
             if tups & allvals:
@@ -1686,7 +1687,7 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _check_list_props(self, inst: InstanceNode) -> None:
         if (self.content_type() == ContentType.config and
-                len(set(inst.value)) < len(inst.value)):
+                len({distinct(v) for v in inst.value}) < len(inst.value)):
             raise SemanticError(inst, "repeated-leaf-list-value")
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From ea3157b162845c9342ad98204431ae8738a04397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 085/116] fix: instance route of leaf-list entries

The selector of an entry used the Python form of its value, which the type
cannot parse (boolean, empty, bits, binary, identityref), and for repeated
values in state data it selected the first of them.
---
 yangson/instance.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 477ca71..f8c868e 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1003,7 +1003,12 @@ class ArrayEntry(InstanceNode):
     def _instance_route_entry(self):
         sn = self.schema_node
         if isinstance(sn, LeafListNode):
-            return EntryValue(str(self.value))
+            if distinct(self.value) in [distinct(en) for en in self.before]:
+                return EntryIndex(self._key)
+            try:
+                return EntryValue(str(self))
+            except YangTypeError:
+                return EntryIndex(self._key)
         if not sn.keys:
             return EntryIndex(self._key)
         kdict = {}
@@ -1013,7 +1018,7 @@ class ArrayEntry(InstanceNode):
                     kdict[(k[0], None)] = str(self[k[0]])
                 else:
                     kdict[k] = str(self[f"{k[1]}:{k[0]}"])
-            except NonexistentInstance:
+            except (NonexistentInstance, YangTypeError):
                 return EntryIndex(self._key)
         return EntryKeys(kdict)
 
-- 
2.43.0


From 0ef5ca0135d56c7d8dd5e603c84627ad49c6c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 086/116] fix: quoting of values in instance identifiers

A quoted string in an instance identifier has no escape sequences.
---
 yangson/instance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index f8c868e..1030f4c 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -34,7 +34,6 @@ This module implements the following classes:
 """
 from collections import deque
 from datetime import datetime
-import json
 from typing import Mapping, Optional, TYPE_CHECKING, Union
 from urllib.parse import unquote
 import xml.etree.ElementTree as ET
@@ -1066,6 +1065,11 @@ class ArrayEntry(InstanceNode):
         return self.up()._parent()
 
 
+def quoted(value: str) -> str:
+    """Return `value` as a quoted string of an instance identifier."""
+    return f"'{value}'" if '"' in value else f'"{value}"'
+
+
 class MemberName:
     """Selectors of object members.
 
@@ -1176,7 +1180,7 @@ class EntryValue:
         self.value = value
 
     def __str__(self) -> str:
-        return f"[.={json.dumps(self.value)}]"
+        return f"[.={quoted(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
         return (self.__class__ == other.__class__ and
@@ -1229,7 +1233,7 @@ class EntryKeys:
         res = []
         for k in self.keys:
             kn = f"{k[1]}:{k[0]}" if k[1] else k[0]
-            res.append(f"[{kn}={json.dumps(self.keys[k])}]")
+            res.append(f"[{kn}={quoted(self.keys[k])}]")
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From a109e58c84a6ffda0d23d8928531ecb273856b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 087/116] fix: following instance routes that do not fit the
 schema

goto raised AttributeError or returned a part of a string, and so did peek.
An instance identifier with an invalid key value refers to no node.
---
 yangson/datatype.py |  4 ++--
 yangson/instance.py | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 119f3be..4a931e8 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -53,7 +53,7 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 
 from .constraint import Intervals, Pattern
 from .exceptions import (
-    InstanceException, InvalidArgument, InvalidLeafrefPath,
+    InstanceException, InvalidArgument, InvalidKeyValue, InvalidLeafrefPath,
     ModuleNotRegistered, NonexistentSchemaNode, ParserException,
     UnknownPrefix, XPathTypeError)
 from .schemadata import SchemaContext
@@ -759,7 +759,7 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
     def _deref(node: InstanceNode) -> list[InstanceNode]:
         try:
             return [node.top().goto(cast(InstanceRoute, node.value))]
-        except (InstanceException, NonexistentSchemaNode):
+        except (InstanceException, InvalidKeyValue, NonexistentSchemaNode):
             return []
 
 
diff --git a/yangson/instance.py b/yangson/instance.py
index 1030f4c..22aba72 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -658,6 +658,8 @@ class InstanceNode:
         return self.peek(irt)
 
     def _member_schema_node(self, name: InstanceName) -> "DataNode":
+        if not isinstance(self.schema_node, InternalNode):
+            raise InstanceValueError(self, "member of non-internal node")
         qname = self.schema_node._iname2qname(name)
         res = self.schema_node.get_data_child(*qname)
         if res is None:
@@ -1103,7 +1105,10 @@ class MemberName:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
-        cn = sn.get_data_child(self.name, self.namespace)
+        cn = (sn.get_data_child(self.name, self.namespace)
+              if isinstance(sn, InternalNode) else None)
+        if cn is None:
+            return (None, sn)
         try:
             return (val[cn.iname()], cn)
         except (IndexError, KeyError, TypeError):
@@ -1156,12 +1161,16 @@ class EntryIndex:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not isinstance(val, ArrayValue):
+            return None, sn
         try:
             return val[self.index], sn
         except (IndexError, KeyError, TypeError):
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        if not isinstance(inst.value, ArrayValue):
+            raise InstanceValueError(inst, "index of non-array")
         return inst[self.index]
 
 
@@ -1198,12 +1207,17 @@ class EntryValue:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Value, "DataNode"]:
+        if not isinstance(sn, LeafListNode) or not isinstance(val, ArrayValue):
+            return None, sn
         try:
             return (val[val.index(self.parse_value(sn))], sn)
         except ValueError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        if (not isinstance(inst.schema_node, LeafListNode)
+                or not isinstance(inst.value, ArrayValue)):
+            raise InstanceValueError(inst, "entry value of non-leaf-list")
         try:
             return inst._entry(
                 inst.value.index(self.parse_value(inst.schema_node)))
@@ -1267,6 +1281,8 @@ class EntryKeys:
             val: Current value (array).
             sn:  Current schema node.
         """
+        if not isinstance(sn, ListNode) or not isinstance(val, ArrayValue):
+            return (None, sn)
         keys = self.parse_keys(sn)
         for en in val:
             flag = True
@@ -1287,6 +1303,9 @@ class EntryKeys:
         Args:
             inst: Current instance.
         """
+        if (not isinstance(inst.schema_node, ListNode)
+                or not isinstance(inst.value, ArrayValue)):
+            raise InstanceValueError(inst, "lookup on non-list")
         return inst.look_up(**self.parse_keys(inst.schema_node))
 
 
-- 
2.43.0


From 4f8694ffb30ec6d888e243575d64cb7d1ac3264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 088/116] fix: resource identifiers that continue after a leaf,
 anydata or leaf-list entry

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 22aba72..1ec48e1 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1333,6 +1333,8 @@ class ResourceIdParser(Parser):
         sn = self.schema_node
         while True:
             name, ns = self.prefixed_name()
+            if not isinstance(sn, InternalNode):
+                raise NonexistentSchemaNode(sn.qual_name, name, ns)
             cn = sn.get_data_child(name, ns)
             if cn is None:
                 for cn in sn.children:
-- 
2.43.0


From 4800d635117265c9d2addf4a9e0ecc6987123b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 089/116] fix: resource identifiers that continue after an
 operation or action

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1ec48e1..a7caa83 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1341,6 +1341,8 @@ class ResourceIdParser(Parser):
                     if (isinstance(cn, RpcActionNode) and cn.name == name and
                             (ns is None or cn.ns == ns)):
                         res.append(ActionName(name, ns))
+                        if not self.at_end():
+                            raise UnexpectedInput(self, "end of input")
                         return InstanceRoute(res)
                 raise NonexistentSchemaNode(sn.qual_name, name, ns)
             res.append(MemberName(name, ns))
-- 
2.43.0


From c190d037046b9095470850c56b442815d6c929db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 090/116] fix: splitting an empty instance route

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index f7650bc..7df81f6 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1023,7 +1023,7 @@ class DataNode(SchemaNode):
             if not sroute:
                 break
             inst = sroute.pop()
-            if inst != route[i].iname():
+            if i >= len(route) or inst != route[i].iname():
                 return None
             while True:         # skip up to next MemberName
                 i += 1
-- 
2.43.0


From ee3779b5719f7a78e47a5142d6b6283dce89c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 091/116] fix: selecting union values in instance routes

A boolean is not the same value as a number.
---
 yangson/instance.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index a7caa83..fd94bb9 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -256,7 +256,7 @@ class InstanceNode:
             flag = True
             for k in keys:
                 try:
-                    if en[k] != keys[k]:
+                    if distinct(en[k]) != distinct(keys[k]):
                         flag = False
                         break
                 except KeyError:
@@ -1209,21 +1209,21 @@ class EntryValue:
                   sn: "DataNode") -> tuple[Value, "DataNode"]:
         if not isinstance(sn, LeafListNode) or not isinstance(val, ArrayValue):
             return None, sn
-        try:
-            return (val[val.index(self.parse_value(sn))], sn)
-        except ValueError:
-            return None, sn
+        key = distinct(self.parse_value(sn))
+        for en in val:
+            if distinct(en) == key:
+                return (en, sn)
+        return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
         if (not isinstance(inst.schema_node, LeafListNode)
                 or not isinstance(inst.value, ArrayValue)):
             raise InstanceValueError(inst, "entry value of non-leaf-list")
-        try:
-            return inst._entry(
-                inst.value.index(self.parse_value(inst.schema_node)))
-        except ValueError:
-            raise NonexistentInstance(
-                inst, f"entry '{self.value!s}'") from None
+        key = distinct(self.parse_value(inst.schema_node))
+        for i in range(len(inst.value)):
+            if distinct(inst.value[i]) == key:
+                return inst._entry(i)
+        raise NonexistentInstance(inst, f"entry '{self.value!s}'")
 
 
 class EntryKeys:
@@ -1288,7 +1288,7 @@ class EntryKeys:
             flag = True
             try:
                 for k in keys:
-                    if en[k] != keys[k]:
+                    if distinct(en[k]) != distinct(keys[k]):
                         flag = False
                         break
             except KeyError:
-- 
2.43.0


From e51b6cfdc373fa47463defc100b00f99c1c5289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 092/116] fix: place of errors in XML list entries

The path of an error in a list or leaf-list entry counted all sibling
elements, missed the namespace of the keys and named the position twice.
---
 yangson/schemanode.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 7df81f6..936bdec 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1330,20 +1330,11 @@ class SequenceNode(DataNode):
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "",
                  tagname: str = None, isroot: bool = False) -> ArrayValue:
         res = ArrayValue()
-        idx = 0
         if isroot:
             return self._process_xmlarray_child(res, rval, None, jptr)
         else:
             for xmlchild in rval:
-                if isinstance(self, ListNode):
-                    keys = [str(xmlchild.findtext(
-                        k[0], default='<missing>')) for k in self.keys]
-                    element = "=" + ",".join(keys)
-                else:
-                    element = "/" + str(idx)
-                self._process_xmlarray_child(
-                    res, xmlchild, tagname, jptr + element)
-                idx = idx + 1
+                self._process_xmlarray_child(res, xmlchild, tagname, jptr)
         return res
 
     def _process_xmlarray_child(
@@ -1359,7 +1350,14 @@ class SequenceNode(DataNode):
         else:
             qn = self.ns + ':' + xmlchild.tag
         if tagname is None or qn == tagname:
-            child = self.entry_from_xml(xmlchild, jptr + "/" + str(len(res)))
+            if isinstance(self, ListNode):
+                pref = xmlchild.tag[:xmlchild.tag.find("}") + 1]
+                keys = [str(xmlchild.findtext(
+                    pref + k[0], default='<missing>')) for k in self.keys]
+                element = "=" + ",".join(keys)
+            else:
+                element = "/" + str(len(res))
+            child = self.entry_from_xml(xmlchild, jptr + element)
             res.append(child)
         else:
             child = None
-- 
2.43.0


From 4ed78b47187b48fe9e632fdbc75ec613a0f7d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 093/116] fix: paths of errors in raw values put or merged

The path of an error in a new member named its parent instead of the
member, and paths below the root started with two slashes.
---
 yangson/instance.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index fd94bb9..77a0b7e 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -210,8 +210,9 @@ class InstanceNode:
             raise InstanceValueError(self, "member of non-object")
         csn = self._member_schema_node(name)
         newval = self.value.copy()
-        newval[name] = (csn.from_raw(value, self.json_pointer()) if raw
-                        else value)
+        newval[name] = (
+            csn.from_raw(value, self._raw_pointer() + "/" + name) if raw
+            else value)
         return self._copy(newval)._member(name)
 
     def delete_item(self, key: InstanceKey) -> "InstanceNode":
@@ -296,9 +297,7 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the updated value.
         """
-        newval = self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
-        return self._copy(newval)
+        return self._copy(self._cook_value(value, raw))
 
     def merge(self, value: Union[RawValue, Value],
               raw: bool = False) -> "InstanceNode":
@@ -322,7 +321,11 @@ class InstanceNode:
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
         return self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
+            value, self._raw_pointer()) if raw else value
+
+    def _raw_pointer(self) -> JSONPointer:
+        """Return the pointer that raw value errors start with."""
+        return self.json_pointer() if self.path else ""
 
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
         inst = self._copy(self.value)
-- 
2.43.0


From fc46537c4737a5e8b7726b7dc27d72402e0b3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 094/116] fix: selecting an object member by an integer

It failed with AttributeError instead of NonexistentInstance.
---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 77a0b7e..53afdf1 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -628,6 +628,8 @@ class InstanceNode:
             return [m for m in self.value if not m.startswith("@")]
 
     def _member(self, name: InstanceName) -> "ObjectMember":
+        if not isinstance(name, str):
+            raise NonexistentInstance(self, f"member '{name}'")
         pts = name.partition(":")
         if pts[1] and pts[0] == self.namespace:
             name = pts[2]
-- 
2.43.0


From 40a711fe72a4dd489368d613690dd818550e1e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 095/116] fix: integer arguments of statements that are no
 integers

Building the data model failed with ValueError, which isn't a library
exception.
---
 yangson/datatype.py   |  6 +++---
 yangson/schemanode.py |  4 ++--
 yangson/statement.py  | 11 +++++++++++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 4a931e8..5f3696f 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -364,7 +364,7 @@ class BitsType(DataType[tuple[str, ...], str]):
             label = cast(str, bst.argument)
             pst = bst.find1("position")
             if pst:
-                self.bit[label] = int(cast(str, pst.argument))
+                self.bit[label] = pst.int_argument()
             else:
                 self.bit[label] = nextpos
             nextpos = max(self.bit.values()) + 1
@@ -601,7 +601,7 @@ class EnumerationType(DataType[str, str]):
             label = cast(str, est.argument)
             vst = est.find1("value")
             if vst:
-                self.enum[label] = int(cast(str, vst.argument))
+                self.enum[label] = vst.int_argument()
             else:
                 self.enum[label] = nextval
             nextval = max(self.enum.values()) + 1
@@ -920,7 +920,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         fd = cast(Statement, stmt.find1("fraction-digits", required=True))
-        self.fraction_digits = int(cast(str, fd.argument))
+        self.fraction_digits = fd.int_argument()
         self._epsilon = decimal.Decimal(10) ** -self.fraction_digits
         super()._handle_properties(stmt, sctx)
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 936bdec..e97a389 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1274,7 +1274,7 @@ class SequenceNode(DataNode):
 
     def _min_elements_stmt(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
-        self.min_elements = int(stmt.argument)
+        self.min_elements = stmt.int_argument()
 
     def _deviate_min_elements(self, stmt: Statement,
                               sctx: SchemaContext, action: str) -> None:
@@ -1289,7 +1289,7 @@ class SequenceNode(DataNode):
         if arg == "unbounded":
             self.max_elements = None
         else:
-            self.max_elements = int(arg)
+            self.max_elements = stmt.int_argument()
 
     def _deviate_max_elements(self, stmt: Statement,
                               sctx: SchemaContext, action: str) -> None:
diff --git a/yangson/statement.py b/yangson/statement.py
index c4872e4..8b0d827 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -97,6 +97,17 @@ class Statement:
         return [c for c in self.substatements
                 if c.keyword == kw and c.prefix == pref]
 
+    def int_argument(self) -> int:
+        """Return the integer value of the receiver's argument.
+
+        Raises:
+            InvalidArgument: If the argument is not an integer.
+        """
+        try:
+            return int(self.argument)
+        except (TypeError, ValueError):
+            raise InvalidArgument(str(self.argument)) from None
+
     def _get_scoped_definition(self, name: YangIdentifier,
                                kw: YangIdentifier) -> Optional["Statement"]:
         """Search ancestor statements for a scoped (non-importable) definition.
-- 
2.43.0


From fc344605c2bfbc4e96fd720137b82d054e95ddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 096/116] fix: leafref referring to a node that is no leaf

Building the data model failed with AttributeError.
---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 5f3696f..eaab20c 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -695,7 +695,7 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
 
     def _post_process(self, tnode: "TerminalNode") -> None:
         ref = tnode._follow_leafref(self.path, tnode)
-        if ref is None:
+        if not hasattr(ref, "type"):
             raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
         first = not hasattr(self, "ref_type")
         self.ref_type = ref.type
-- 
2.43.0


From 667d0cdf0d0c13c744150d16740259ebc1940b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 097/116] fix: list keys that do not exist

Building the data model failed with AttributeError.
---
 yangson/schemanode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e97a389..62370c2 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -52,8 +52,8 @@ from .enumerations import (Axis, ContentType, DefaultDeny,
                            NodeStatus, ValidationScope)
 from .exceptions import (
     AnnotationTypeError, InvalidArgument,
-    MissingAnnotationTarget, MissingModuleNamespace, RawMemberError,
-    RawTypeError, SchemaError, SemanticError, UndefinedAnnotation,
+    MissingAnnotationTarget, MissingModuleNamespace, NonexistentSchemaNode,
+    RawMemberError, RawTypeError, SchemaError, SemanticError, UndefinedAnnotation,
     YangsonException, YangTypeError)
 from .instance import (ArrayEntry, InstanceNode, MemberName, ObjectMember)
 from .instroute import InstanceRoute
@@ -1455,6 +1455,8 @@ class ListNode(SequenceNode, InternalNode):
         super()._post_process()
         for k in self.keys:
             kn = self.get_data_child(*k)
+            if kn is None:
+                raise NonexistentSchemaNode(self.qual_name, *k)
             self._key_members.append(kn.iname())
             if not kn._mandatory:
                 kn._mandatory = True
-- 
2.43.0


From 06ed55a0566347ec7f8840cb04b0df4b16dae50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 098/116] fix: YANG library data of a wrong form

They were reported with TypeError or KeyError instead of the documented
BadYangLibraryData.
---
 yangson/datamodel.py  | 15 +++++++++++----
 yangson/schemadata.py |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 71eb86d..8a131ed 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -87,10 +87,17 @@ class DataModel:
         self.schema = SchemaTreeNode(self.schema_data)
         self.schema._ctype = ContentType.all
         self._build_schema()
-        self.schema.description = description if description else (
-            "Data model ID: " +
-            self.yang_library["ietf-yang-library:modules-state"]
-            ["module-set-id"])
+        self.schema.description = (description if description else
+                                   self._library_description())
+
+    def _library_description(self) -> str:
+        try:
+            return "Data model ID: " + self.yang_library[
+                "ietf-yang-library:modules-state"]["module-set-id"]
+        except KeyError as e:
+            raise BadYangLibraryData("missing " + str(e)) from None
+        except TypeError:
+            raise BadYangLibraryData("wrong type") from None
 
     def module_set_id(self) -> str:
         """Compute unique id of YANG modules comprising the data model.
diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 5a8762c..a242235 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -168,6 +168,8 @@ class SchemaData:
                         sdata.prefix_map[locpref] = mid
         except KeyError as e:
             raise BadYangLibraryData("missing " + str(e)) from None
+        except (AttributeError, TypeError):
+            raise BadYangLibraryData("wrong type") from None
         self._process_imports()
         self._check_feature_dependences()
 
-- 
2.43.0


From 1f54bdda518865e84e6a76610ad928316b1f3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 099/116] fix: quoted parts of an argument joined with an
 unquoted string

If the first part was empty, anything was accepted after +.
---
 yangson/statement.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 8b0d827..3783fb6 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -283,7 +283,7 @@ class ModuleParser(Parser):
         elif not pres:
             raise UnexpectedInput(self, "separator")
         else:
-            self._arg = ""
+            self._arg = None
             sub = self.argument()
             arg = self._arg
         self.offset += 1
@@ -306,7 +306,7 @@ class ModuleParser(Parser):
         elif next == '"':
             quoted = True
             self.dq_argument()
-        elif self._arg == "":
+        elif self._arg is None:
             quoted = False
             self.unq_argument()
         else:
@@ -332,7 +332,7 @@ class ModuleParser(Parser):
             EndOfInput: If past the end of input.
         """
         self.offset += 1
-        self._arg += self.up_to("'")
+        self._arg = (self._arg or "") + self.up_to("'")
 
     def dq_argument(self) -> str:
         """Parse double-quoted argument.
@@ -355,8 +355,9 @@ class ModuleParser(Parser):
             {  # state 1: after escape
                 "": lambda: 0
             }])
-        self._arg += (self.unescape(self.input[start:self.offset])
-                      if self._escape else self.input[start:self.offset])
+        self._arg = (self._arg or "") + (
+            self.unescape(self.input[start:self.offset])
+            if self._escape else self.input[start:self.offset])
         self.offset += 1
 
     def unq_argument(self) -> str:
-- 
2.43.0


From b3030b8e13f71088062dcaaf7c756ea7f6df0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 100/116] fix: end of an unquoted string

A slash at the end took the character after it into the string, and
closing braces were part of it, too (RFC 7950, sec. 6.1.3).
---
 yangson/statement.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 3783fb6..3cf8c9c 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -22,6 +22,7 @@ This module implements the following classes:
 * ModuleParser: Recursive-descent parser for YANG modules.
 * Statement: YANG statements.
 """
+import re
 from typing import Final, Optional
 from .exceptions import (
     EndOfInput, StatementNotFound, UnexpectedInput, InvalidArgument,
@@ -139,6 +140,9 @@ class ModuleParser(Parser):
                                            "\\": "\\"}
     """Dictionary for mapping escape sequences to characters."""
 
+    unq_re = re.compile(r"(?:[^ \t\r\n;{}/]|/(?![/*]))+")
+    """Regular expression for an unquoted argument."""
+
     def __init__(self, text: str, name: YangIdentifier = None,
                  rev: str = "") -> None:
         """Initialize the parser instance.
@@ -366,24 +370,7 @@ class ModuleParser(Parser):
         Raises:
             EndOfInput: If past the end of input.
         """
-        start = self.offset
-        self.dfa([
-            {  # state 0: argument
-                "": lambda: 0,
-                ";": lambda: -1,
-                " ": lambda: -1,
-                "\t": lambda: -1,
-                "\r": lambda: -1,
-                "\n": lambda: -1,
-                "{": lambda: -1,
-                '/': lambda: 1
-            },
-            {  # state 1: comment?
-                "": lambda: 0,
-                "/": self._back_break,
-                "*": self._back_break
-            }])
-        self._arg = self.input[start:self.offset]
+        self._arg = self.match_regex(self.unq_re, True, "argument")
 
     def substatements(self) -> list[Statement]:
         """Parse substatements.
-- 
2.43.0


From 5feb7cd3b491f82ac24bfd45d12a02c68b70837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 101/116] fix: strings with many escape sequences

The parser recursed for each escape sequence.
---
 yangson/statement.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 3cf8c9c..6e24d73 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -195,11 +195,9 @@ class ModuleParser(Parser):
         Args:
             text: Text to unescape.
         """
-        chop = text.split("\\", 1)
         try:
-            return (chop[0] if len(chop) == 1
-                    else chop[0] + cls.unescape_map[chop[1][0]] +
-                    cls.unescape(chop[1][1:]))
+            return re.sub(r"\\(.)", lambda mo: cls.unescape_map[mo[1]], text,
+                          flags=re.DOTALL)
         except KeyError:
             raise InvalidArgument(text) from None
 
-- 
2.43.0


From 3b6eed8fc8fd89358da69f72a5ecbf223b53002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 102/116] fix: layout of double-quoted strings

Whitespace that only indents the continuation lines, or precedes a line
break, is no part of the string (RFC 7950, sec. 6.1.3).
---
 yangson/statement.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 6e24d73..df3e61a 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -201,6 +201,23 @@ class ModuleParser(Parser):
         except KeyError:
             raise InvalidArgument(text) from None
 
+    @staticmethod
+    def strip_layout(text: str, width: int) -> str:
+        """Remove whitespace that belongs to the layout of a string.
+
+        Args:
+            text: Text of a double-quoted string.
+            width: Number of columns up to and including the opening quote.
+        """
+        def unindent(mo):
+            ws, i, col = mo[1], 0, 0
+            while i < len(ws) and col < width:
+                col += 8 if ws[i] == "\t" else 1
+                i += 1
+            return "\n" + " " * (col - width) + ws[i:]
+        return re.sub(r"\n([ \t]+)", unindent,
+                      re.sub(r"[ \t]+(\r?\n)", r"\1", text))
+
     def opt_separator(self) -> bool:
         """Parse an optional separator and return ``True`` if found.
 
@@ -357,9 +374,12 @@ class ModuleParser(Parser):
             {  # state 1: after escape
                 "": lambda: 0
             }])
+        arg = self.input[start:self.offset]
+        if "\n" in arg:
+            arg = self.strip_layout(
+                arg, start - self.input.rfind("\n", 0, start) - 1)
         self._arg = (self._arg or "") + (
-            self.unescape(self.input[start:self.offset])
-            if self._escape else self.input[start:self.offset])
+            self.unescape(arg) if self._escape else arg)
         self.offset += 1
 
     def unq_argument(self) -> str:
-- 
2.43.0


From 5c001c6e848f0464623698b3d6619297f7aa80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 103/116] fix: report every library error with its exit status
 in yangson

---
 yangson/__main__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index 89d0a90..ef46e74 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -30,7 +30,7 @@ from yangson.exceptions import (
     BadYangLibraryData, FeaturePrerequisiteError, InvalidArgument,
     MultipleImplementedRevisions, ModuleNotFound, ModuleNotRegistered,
     NonexistentSchemaNode, RawMemberError, RawTypeError,
-    SchemaError, SemanticError, YangTypeError)
+    SchemaError, SemanticError, YangsonException, YangTypeError)
 from yangson.typealiases import PrefName
 
 
@@ -157,6 +157,9 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         except ModuleNotRegistered as e:
             print("Module not registered:", str(e), file=sys.stderr)
             return 2
+        except (YangsonException, UnicodeDecodeError) as e:
+            print("Invalid data model:", str(e), file=sys.stderr)
+            return 2
     if set_id:
         print(dm.module_set_id())
         return 0
@@ -197,6 +200,9 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except NonexistentSchemaNode:
         print("Subschema", subschema, "not found", file=sys.stderr)
         return 3
+    except YangsonException as e:
+        print("Invalid instance data:", str(e), file=sys.stderr)
+        return 3
     try:
         i.validate(scope, ctype)
     except SchemaError as e:
@@ -208,6 +214,9 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except YangTypeError as e:
         print("Invalid type:", str(e), file=sys.stderr)
         return 3
+    except YangsonException as e:
+        print("Invalid instance data:", str(e), file=sys.stderr)
+        return 3
     return 0
 
 
-- 
2.43.0


From 8942d74516ad23f95f7b86f978d7e70392bb93d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 104/116] fix: report unusable files in yangson instead of
 crashing or succeeding

---
 yangson/__main__.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index ef46e74..18c73e0 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -127,14 +127,15 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         try:
             with open(infile, "rb") as pif:
                 dm = pickle.load(pif)
-        except (FileNotFoundError, pickle.UnpicklingError) as e:
+        except (OSError, pickle.UnpicklingError, AttributeError, EOFError,
+                ImportError, IndexError) as e:
             print("Pickle file:", str(e), file=sys.stderr)
             return 1
     else:
         try:
             with open(infile, encoding="utf-8") as ylf:
                 yl = ylf.read()
-        except (FileNotFoundError, PermissionError, UnicodeDecodeError,
+        except (OSError, UnicodeDecodeError,
                 json.decoder.JSONDecodeError) as e:
             print("YANG library:", str(e), file=sys.stderr)
             return 1
@@ -170,18 +171,19 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         print(dm.schema_digest())
         return 0
     if dump:
-        with open(dump, "wb") as pif:
-            try:
+        try:
+            with open(dump, "wb") as pif:
                 pickle.dump(dm, pif, pickle.HIGHEST_PROTOCOL)
-                return 0
-            except pickle.PicklingError as e:
-                print("Pickling failed:", str(e), file=sys.stderr)
+            return 0
+        except (OSError, pickle.PicklingError) as e:
+            print("Pickling failed:", str(e), file=sys.stderr)
+            return 1
     if not validate:
         return 0
     try:
         with open(validate, encoding="utf-8") as instf:
             itxt = json.load(instf)
-    except (FileNotFoundError, PermissionError, UnicodeDecodeError,
+    except (OSError, UnicodeDecodeError,
             json.decoder.JSONDecodeError) as e:
         print("Instance data:", str(e), file=sys.stderr)
         return 1
-- 
2.43.0


From 9daa23810e792e393f0b8fd8edcbb10d19eaa66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 105/116] fix: skip module search path entries that are not
 regular files

---
 yangson/schemadata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index a242235..e6ba210 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -190,6 +190,7 @@ class SchemaData:
                         res = ModuleParser(infile.read(), name, rev).parse()
                         mdata.path = fn
                 except (FileNotFoundError, PermissionError,
+                        IsADirectoryError, NotADirectoryError,
                         ModuleContentMismatch):
                     run += 1
                     continue
-- 
2.43.0


From 0f803c589a7f66a40b523c1f5bbf8e6924c71883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 106/116] fix: convert deviations in convert8525

---
 yangson/convert8525.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index e94a86c..7bd1e46 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -31,6 +31,7 @@ from yangson import DataModel
 from yangson.enumerations import ContentType
 from yangson.exceptions import (
     NonexistentInstance, ValidationError, RawDataError)
+from yangson.instance import InstanceNode
 from yangson.instvalue import ObjectValue
 from yangson.typealiases import RawObject
 
@@ -123,8 +124,9 @@ class ModuleData:
 
 class MainModuleData(ModuleData):
 
-    def __init__(self, val: ObjectValue, import_only: bool) -> None:
+    def __init__(self, entry: InstanceNode, import_only: bool) -> None:
         """Initialize the receiver."""
+        val = cast(ObjectValue, entry.value)
         super().__init__(val)
         self.import_only = import_only
         self.namespace: str = val["namespace"].strip()
@@ -135,7 +137,7 @@ class MainModuleData(ModuleData):
         self.feature: list[str] = val.get("feature", [])
         self.deviation: list[tuple[str, str]] = []
         if "deviation" in val:
-            for dev in val["deviation"]:
+            for dev in entry["deviation"]:
                 dmod = dev._deref()[0]
                 try:
                     rev = dmod.sibling("revision").value
@@ -226,11 +228,11 @@ def main() -> int:
         msentry = top["module-set"].look_up(name=ms.value)
         if "module" in msentry:
             for yam in msentry["module"]:
-                ment = MainModuleData(yam.value, import_only=False)
+                ment = MainModuleData(yam, import_only=False)
                 modules[ment.key()] = ment
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
-                ment = MainModuleData(yam.value, import_only=True)
+                ment = MainModuleData(yam, import_only=True)
                 modules[ment.key()] = ment
     dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
-- 
2.43.0


From 7844243adb6d460ef7923ce3269e1cf0eff9faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 107/116] fix: report unusable files and modules in convert8525

---
 yangson/convert8525.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index 7bd1e46..04afe0f 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -30,7 +30,7 @@ from typing import cast, Optional
 from yangson import DataModel
 from yangson.enumerations import ContentType
 from yangson.exceptions import (
-    NonexistentInstance, ValidationError, RawDataError)
+    NonexistentInstance, YangsonException)
 from yangson.instance import InstanceNode
 from yangson.instvalue import ObjectValue
 from yangson.typealiases import RawObject
@@ -199,14 +199,15 @@ def main() -> int:
     datastore: str = args.datastore
     schema: Optional[str] = args.schema
     sp = path if path else os.environ.get("YANG_MODPATH", ".")
-    dm8525 = DataModel(YL8525, sp.split(":"))
     try:
-        with open(fn8525) as infile:
+        dm8525 = DataModel(YL8525, sp.split(":"))
+        dm7895 = DataModel(YL7895, sp.split(":"))
+        with open(fn8525, encoding="utf-8") as infile:
             ri = json.load(infile)
         inst = dm8525.from_raw(ri)
         inst.validate(ctype=ContentType.nonconfig)
-    except (FileNotFoundError, PermissionError, json.decoder.JSONDecodeError,
-            RawDataError, ValidationError) as e:
+    except (OSError, UnicodeDecodeError, json.decoder.JSONDecodeError,
+            YangsonException) as e:
         print("Invalid input data:", str(e), file=sys.stderr)
         return 1
     top = inst["ietf-yang-library:yang-library"]
@@ -234,7 +235,6 @@ def main() -> int:
             for yam in msentry["import-only-module"]:
                 ment = MainModuleData(yam, import_only=True)
                 modules[ment.key()] = ment
-    dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
         {"ietf-yang-library:modules-state":
          {"module-set-id": cast(str, top["content-id"].value)}})
@@ -244,7 +244,7 @@ def main() -> int:
     res.validate(ctype=ContentType.nonconfig)
     try:
         outf = open(fn7895, mode="w") if args.output else sys.stdout
-    except FileNotFoundError as e:
+    except OSError as e:
         print(e, file=sys.stderr)
         return 3
     json.dump(res.raw_value(), outf, indent=2)
-- 
2.43.0


From 9959e4229c60953018dcf31ae74311b1c341eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 108/116] fix: keep modules implemented that another module set
 only imports in convert8525

---
 yangson/convert8525.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index 04afe0f..0f70320 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -234,7 +234,7 @@ def main() -> int:
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
                 ment = MainModuleData(yam, import_only=True)
-                modules[ment.key()] = ment
+                modules.setdefault(ment.key(), ment)
     res = dm7895.from_raw(
         {"ietf-yang-library:modules-state":
          {"module-set-id": cast(str, top["content-id"].value)}})
-- 
2.43.0


From d517480fdd15e8f111056fbb34abd5003b9923ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 109/116] fix: get_data_node returns None for paths that
 address no data node

---
 yangson/datamodel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 8a131ed..ae6f96f 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -194,12 +194,11 @@ class DataModel:
         """
         addr = self.schema_data.path2route(path)
         node: InternalNode = self.schema
+        child = None
         for p in addr:
-            child = node.get_data_child(*p)
-            if child is None:
+            if not isinstance(node, InternalNode):
                 return None
-            if isinstance(child, InternalNode):
-                node = child
+            child = node = node.get_data_child(*p)
         return child
 
     def ascii_tree(self, no_types: bool = False,
-- 
2.43.0


From 01d101cbd8af0ab8b9c5b101c3dbe65544b1cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 110/116] fix: state_roots works in subtrees with anydata and
 anyxml

---
 yangson/schemanode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 62370c2..6dc53f0 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1760,6 +1760,9 @@ class AnyContentNode(DataNode):
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "") -> Value:
         super().from_xml(rval, jptr)
 
+    def _state_roots(self) -> list[SchemaNode]:
+        return [] if self.content_type() == ContentType.config else [self]
+
     def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
                           lazy: bool = False) -> InstanceNode:
         return pnode
-- 
2.43.0


From 89c768c511991795d3a579ed82f8e064ccf92c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 111/116] fix: syntax trees of derived-from and of substring
 without length

---
 yangson/xpathast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index e358a1b..78e53f1 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -659,7 +659,8 @@ class FuncDerivedFrom(BinaryExpr):
 
     def _properties_str(self) -> str:
         return ("OR-SELF, " if self.or_self
-                else "") + self.sctx.schema_data.namespace(self.mid)
+                else "") + self.sctx.schema_data.namespace(
+                    self.sctx.text_mid)
 
     def _eval(self, xctx: XPathContext) -> bool:
         ns = self.left._eval(xctx)
@@ -829,7 +830,8 @@ class FuncSubstring(BinaryExpr):
         return res + ")"
 
     def _children_ast(self, indent: int) -> str:
-        return super()._children_ast(indent) + self.length.syntax_tree(indent)
+        res = super()._children_ast(indent)
+        return res + self.length.syntax_tree(indent) if self.length else res
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.left._eval_string(xctx)
-- 
2.43.0


From e39366031cc2fc58c0a59d8ea54ed56ea63e67da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 112/116] fix: build the instance route in _peek_schema_route

---
 yangson/instance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 53afdf1..a311218 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -652,15 +652,16 @@ class InstanceNode:
             raise NonexistentInstance(self, "entry " + str(index)) from None
 
     def _peek_schema_route(self, sroute: SchemaRoute) -> Value:
-        irt = InstanceRoute()
+        irt = []
         sn = self.schema_node
         for qn in sroute:
-            sn = sn.get_child(*qn)
-            if sn is None:
+            child = sn.get_child(*qn)
+            if child is None:
                 raise NonexistentSchemaNode(sn.qual_name, *qn)
+            sn = child
             if isinstance(sn, DataNode):
                 irt.append(MemberName(sn.name, sn.ns))
-        return self.peek(irt)
+        return self.peek(InstanceRoute(irt))
 
     def _member_schema_node(self, name: InstanceName) -> "DataNode":
         if not isinstance(self.schema_node, InternalNode):
-- 
2.43.0


From f0c44fab7b8b539653bceaf6dc51981259dddb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 113/116] fix: moving up does not change the timestamp of the
 parent object

---
 yangson/instance.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index a311218..0db0fc6 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -846,9 +846,8 @@ class ObjectMember(InstanceNode):
 
     def _zip(self) -> ObjectValue:
         """Zip the receiver into an object and return it."""
-        res = ObjectValue(self.siblings.copy(), self.timestamp)
-        res[self.name] = self.value
-        return res
+        return ObjectValue(
+            {**self.siblings, self.name: self.value}, self.timestamp)
 
     def _copy(self, newval: Value, newts: datetime = None) -> "ObjectMember":
         if newts:
-- 
2.43.0


From 819bc0eb7cc7682a4e891b2b964c69609ab81ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 114/116] fix: state_roots() of choices and cases gives data
 paths only

---
 yangson/schemanode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 6dc53f0..178f9e6 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -747,7 +747,8 @@ class InternalNode(SchemaNode):
         return inst
 
     def _state_roots(self) -> list[SchemaNode]:
-        if self.content_type() == ContentType.nonconfig:
+        if (self.content_type() == ContentType.nonconfig and
+                not isinstance(self, (ChoiceNode, CaseNode))):
             return [self]
         res = []
         for c in self.data_children():
-- 
2.43.0


From 2bcfaea1a4ebfb3885541216f84695a1fd735363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:53 +0000
Subject: [PATCH 115/116] fix: documented error tag for violations of unique

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 178f9e6..c70e22b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1444,7 +1444,7 @@ class ListNode(SequenceNode, InternalNode):
                 uvals.append(uval)
             tups = set(product(*uvals))
             if tups & allvals:
-                raise SemanticError(inst, f"data-not-unique: entry {i}")
+                raise SemanticError(inst, "data-not-unique", f"entry {i}")
             else:
                 allvals |= tups
 
-- 
2.43.0


From 3fbdfc73799d447b6145518d1e85ea3dd5a70614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:53 +0000
Subject: [PATCH 116/116] fix: documented error tag for repeated leaf-list
 values

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c70e22b..f5a2c9d 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1689,7 +1689,7 @@ class LeafListNode(SequenceNode, TerminalNode):
     def _check_list_props(self, inst: InstanceNode) -> None:
         if (self.content_type() == ContentType.config and
                 len({distinct(v) for v in inst.value}) < len(inst.value)):
-            raise SemanticError(inst, "repeated-leaf-list-value")
+            raise SemanticError(inst, "repeated-leaf-list-values")
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if self._default is None:
-- 
2.43.0

