From a2608be664c0a098a2f3d838fe9c1c3b9cea1e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 01/64] fix: deleting an unset checked slot is an
 AttributeError, not a KeyError

Also clearing an already unset v1 slot by assigning None is a no-op.
---
 normalize/property/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 6828f8b..2ac1c45 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -417,6 +417,8 @@ class SafeProperty(Property):
         it is false"""
         if self.required:
             raise exc.PropertyRequired(prop=self)
+        if self.name not in obj.__dict__:
+            raise AttributeError(self.fullname)
         del obj.__dict__[self.name]
 
 
@@ -466,7 +468,8 @@ class V1Property(SafeProperty):
             super().__set__(obj, value)
         except exc.CoercionError:
             if value is None or value == self.v1_none:
-                self.__delete__(obj)
+                if self.required or self.name in obj.__dict__:
+                    self.__delete__(obj)
             else:
                 raise
 
-- 
2.43.0


From 5603c263554574c74b99d163e0c504bbe6b54c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 02/64] fix: V1Property.slot_is_empty passes the wrong object
 to super()

---
 normalize/property/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 2ac1c45..633a18e 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -456,7 +456,7 @@ class V1Property(SafeProperty):
     def slot_is_empty(self, obj):
         if self.v1_upgraded:
             return False
-        return super(V1Property, obj).slot_is_empty(obj)
+        return super(V1Property, self).slot_is_empty(obj)
 
     def attribute_error_hook(self):
         return self.v1_none
-- 
2.43.0


From 4b3cd7e497d0b13d239b46bdf0c05c6c9afd4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 03/64] fix: read-only properties stay read-only when mixed
 with other traits

---
 normalize/property/meta.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f424f20..6f92e17 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -202,7 +202,13 @@ def create_property_type_from_traits(trait_set):
                 new_name = _merge_camel_case_names(
                     base_type.__name__, other_type.__name__,
                 )
-                new_type = type(new_name, (base_type, other_type), {})
+                attrs = {}
+                if "ro" in mixed_in_product:
+                    # nothing mixed in may make a read-only property writable
+                    ro_type = PROPERTY_TYPES[("ro",)]
+                    attrs['__set__'] = ro_type.__set__
+                    attrs['__delete__'] = ro_type.__delete__
+                new_type = type(new_name, (base_type, other_type), attrs)
                 stock_types[mixed_in_product] = new_type
                 made_types.append(new_type)
                 made_type = True
-- 
2.43.0


From 0518c9f73aa6e598a55c438589cef16992b2a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 04/64] fix: mix in the chosen property type, not the last one
 looked at

---
 normalize/property/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 6f92e17..2d31153 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -198,7 +198,7 @@ def create_property_type_from_traits(trait_set):
 
             if mix_in:
                 base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[other]
+                other_type = PROPERTY_TYPES[mix_in]
                 new_name = _merge_camel_case_names(
                     base_type.__name__, other_type.__name__,
                 )
-- 
2.43.0


From d8eb7e24ead6b9614c76c51bf5e0d5c2a44b1380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 05/64] fix: ListCollection.insert inserts the item

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index feb95fb..efad13b 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -375,7 +375,7 @@ class ListCollection(KeyedCollection):
             i += len(self)
         if i < 0:
             i = 0
-        self[i:i] = x
+        self[i:i] = [x]
 
     def pop(self, i=-1):
         if i < 0:
-- 
2.43.0


From e472afe1a8865c010db0108b3f64bfc817dfe770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 06/64] fix: ListCollection.pop of an out of range negative
 index is an IndexError

---
 normalize/coll.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index efad13b..b0c4b17 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -378,10 +378,6 @@ class ListCollection(KeyedCollection):
         self[i:i] = [x]
 
     def pop(self, i=-1):
-        if i < 0:
-            i += len(self)
-            if i < 0:
-                i = 0
         x = self[i]
         del self[i]
         return x
-- 
2.43.0


From 31a158218999c0fb06e11fc379ad409d6a7d615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 07/64] fix: ListCollection.index accepts an end beyond the
 list

---
 normalize/coll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index b0c4b17..79b22ad 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -365,6 +365,8 @@ class ListCollection(KeyedCollection):
             j += len_
             if j < 0:
                 j = 0
+        elif j > len_:
+            j = len_
         for k in range(i, j):
             if self[k] == x:
                 return k
-- 
2.43.0


From 33ff79a95b1565e4692d8febfd16842addbd0b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 08/64] fix: collections built from a mapping or a
 DictCollection keep every entry

---
 normalize/coll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 79b22ad..8128f20 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -221,7 +221,7 @@ class DictCollection(KeyedCollection):
                 passed=coll,
                 colltype=cls,
             )
-        if isinstance(coll, collections.abc.Mapping):
+        if isinstance(coll, (collections.abc.Mapping, DictCollection)):
             for k, v in coll.items():
                 yield k, v
         elif isinstance(coll, collections.abc.Sequence):
@@ -322,6 +322,7 @@ class ListCollection(KeyedCollection):
             i = 0
             for k in sorted(coll.keys()):
                 yield (i, coll[k])
+                i += 1
         elif isinstance(coll, (collections.abc.Sequence, types.GeneratorType)) or (
             hasattr(coll, "next") and callable(coll.next)
         ) or (
-- 
2.43.0


From 05e51fc8f5bf0b312b449322e09562a1831d4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 09/64] fix: a ListCollection built from a DictCollection takes
 its values

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 8128f20..e0ca9fd 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -318,7 +318,7 @@ class ListCollection(KeyedCollection):
                 passed=coll,
                 colltype=cls,
             )
-        if isinstance(coll, collections.abc.Mapping):
+        if isinstance(coll, (collections.abc.Mapping, DictCollection)):
             i = 0
             for k in sorted(coll.keys()):
                 yield (i, coll[k])
-- 
2.43.0


From 2a9d94178d63e9dbde63660729fd07d11ea5712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 10/64] fix: FieldSelector reports a missing key or index as
 its own error

---
 normalize/selector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 45d9ae2..ada6267 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -160,7 +160,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -221,7 +221,7 @@ class FieldSelector(object):
                 if _try_index(record, selector):
                     try:
                         sub_record = record[selector]
-                    except IndexError:
+                    except LookupError:
                         raise FieldSelectorException(
                             "Could not find Record specified by index: %s." %
                             selector
@@ -337,7 +337,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -353,7 +353,10 @@ class FieldSelector(object):
                 else:
                     record[:] = ()
             else:
-                del record[to_delete]
+                try:
+                    del record[to_delete]
+                except LookupError:
+                    raise FieldSelectorKeyError(key=to_delete)
         else:
             if hasattr(record, to_delete):
                 delattr(record, to_delete)
-- 
2.43.0


From 40817ee05abd2e093ad26d3a33b0b2ee389693bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 11/64] fix: FieldSelector.post passes the value on through a
 wildcard

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index ada6267..fad3550 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -255,7 +255,7 @@ class FieldSelector(object):
         for selector in self.selectors[:-1]:
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
-                return sum(sub_field_selector.post(r) for r in record)
+                return sum(sub_field_selector.post(r, value) for r in record)
 
             # supports the case where an item is created by setting
             # a single required field value
-- 
2.43.0


From bad0c9645a675a532608f27207c44d5498349664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 12/64] fix: FieldSelector.post can create collections whose
 first item is the last component

The value is only passed on to the constructor of a record, by name.
---
 normalize/selector.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index fad3550..2e15f29 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 import functools
 import re
 
+from normalize.coll import Collection
 from normalize.coll import DictCollection
 from normalize.coll import ListCollection
 from normalize.exc import FieldSelectorAttributeError
@@ -39,6 +40,14 @@ def _try_index(instance, selector):
     return False
 
 
+def _vivify(type_, kwarg):
+    """Make an empty ``type_`` for ``FieldSelector.post``; returns it, and
+    whether it was already given the final value, passed in ``kwarg``."""
+    if kwarg and not issubclass(type_, Collection):
+        return type_(**kwarg), True
+    return type_(), False
+
+
 @functools.total_ordering
 class FieldSelector(object):
     """
@@ -260,7 +269,9 @@ class FieldSelector(object):
             # supports the case where an item is created by setting
             # a single required field value
             kwarg = {}
-            if i >= len(self.selectors) - 2 and self.selectors[-1] is not None:
+            if i >= len(self.selectors) - 2 and isinstance(
+                self.selectors[-1], str
+            ):
                 kwarg[self.selectors[-1]] = value
 
             if _try_index(record, selector):
@@ -273,16 +284,16 @@ class FieldSelector(object):
                                 "FieldSelector set out of order: "
                                 "[%d]" % selector
                             )
-                        record.append(type(record).itemtype(**kwarg))
-                        if kwarg:
-                            put_final = True
+                        item, put_final = _vivify(
+                            type(record).itemtype, kwarg,
+                        )
+                        record.append(item)
                     else:
                         raise
                     record = record[selector]
                 except KeyError:
-                    record[selector] = type(record).itemtype(**kwarg)
-                    if kwarg:
-                        put_final = True
+                    item, put_final = _vivify(type(record).itemtype, kwarg)
+                    record[selector] = item
             else:
                 if not hasattr(record, selector):
                     prop = type(record).properties[selector]
@@ -291,9 +302,8 @@ class FieldSelector(object):
                             "Must specify default= or isa= to auto-vivify "
                             "%s" % prop
                         )
-                    setattr(record, selector, prop.valuetype(**kwarg))
-                    if kwarg:
-                        put_final = True
+                    item, put_final = _vivify(prop.valuetype, kwarg)
+                    setattr(record, selector, item)
                 record = getattr(record, selector)
             i = i + 1
         if not put_final:
-- 
2.43.0


From be4eba0104560a6b0be9d8c6f4b7e946e098f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 13/64] fix: FieldSelector.post continues inside the dict item
 it created

---
 normalize/selector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index 2e15f29..97a37ae 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -294,6 +294,7 @@ class FieldSelector(object):
                 except KeyError:
                     item, put_final = _vivify(type(record).itemtype, kwarg)
                     record[selector] = item
+                    record = record[selector]
             else:
                 if not hasattr(record, selector):
                     prop = type(record).properties[selector]
-- 
2.43.0


From 8f0b1b6efc8582a43f75305cef5d801874853b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 14/64] fix: FieldSelector.post adds the next item when it is
 the last component

---
 normalize/selector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 97a37ae..6a9e617 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -308,7 +308,11 @@ class FieldSelector(object):
                 record = getattr(record, selector)
             i = i + 1
         if not put_final:
-            type(self)([self.selectors[-1]]).put(record, value)
+            final = self.selectors[-1]
+            if isinstance(record, ListCollection) and final == len(record):
+                record.append(value)
+            else:
+                type(self)([final]).put(record, value)
         return 1
 
     def delete(self, record):
-- 
2.43.0


From 6958f7a59aa1f11b41da0a2711800248404429de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 15/64] fix: FieldSelector.post reports an unknown attribute as
 its own error

---
 normalize/selector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 6a9e617..c88e00b 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -297,7 +297,10 @@ class FieldSelector(object):
                     record = record[selector]
             else:
                 if not hasattr(record, selector):
-                    prop = type(record).properties[selector]
+                    try:
+                        prop = type(record).properties[selector]
+                    except (AttributeError, KeyError):
+                        raise FieldSelectorAttributeError(name=selector)
                     if not prop.valuetype:
                         raise FieldSelectorException(
                             "Must specify default= or isa= to auto-vivify "
-- 
2.43.0


From 0bebf54c34880756f7555d62716c27dc32e30763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 16/64] fix: a DictCollection cannot be built from just any
 object

---
 normalize/coll.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index e0ca9fd..2a4dfef 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -230,7 +230,7 @@ class DictCollection(KeyedCollection):
                 yield (i, v)
                 i += 1
         elif ((hasattr(coll, "next") and callable(coll.next)) or
-              (hasattr(coll, "__next__") and callable(coll.__next__))):
+              (hasattr(coll, "__iter__") and callable(coll.__iter__))):
             i = 0
             for v in coll:
                 if isinstance(v, tuple) and len(v) == 2:
@@ -238,6 +238,13 @@ class DictCollection(KeyedCollection):
                 else:
                     yield (i, v)
                 i += 1
+        elif not coll:
+            return
+        else:
+            raise exc.CollectionCoerceError(
+                passed=coll,
+                colltype=cls,
+            )
 
     def itertuples(self):
         return iter(self._values.items())
-- 
2.43.0


From b97b4720231b3a271b9aac93856b3cd4b2eff0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 17/64] fix: field selector paths round trip for every key and
 index

---
 normalize/selector.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index c88e00b..591f76d 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -525,7 +525,7 @@ def _fmt_selector_path(selector):
         return "[%d]" % selector
     elif selector is None:
         return "[*]"
-    elif not re.match(r'^[a-zA-Z_]\w*$', selector):
+    elif not re.match(r'[a-zA-Z_]\w*\Z', selector):
         return u"['%s']" % selector.replace("\\", "\\\\").replace("'", "\\'")
     else:
         return ".%s" % selector
@@ -534,11 +534,11 @@ def _fmt_selector_path(selector):
 _PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]''',
-    re.X,
+    re.X | re.S,
 )
 
 
@@ -548,11 +548,11 @@ def _scan_selector_path(path):
 
         text_item = m.group('key')
         if text_item is not None:
-            text_item = re.sub(r'\\(.)', lambda m: m.group(1), text_item)
+            text_item = re.sub(r'(?s)\\(.)', lambda m: m.group(1), text_item)
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
@@ -941,13 +941,13 @@ class MultiFieldSelector(object):
 _MFS_PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]|
         (?P<branch>[()|])
         ''',
-    re.X,
+    re.X | re.S,
 )
 
 
@@ -975,11 +975,11 @@ def _scan_mfs_path(path):
 
         text_item = m.group('key')
         if text_item is not None:
-            text_item = re.sub(r'\\(.)', lambda m: m.group(1), text_item)
+            text_item = re.sub(r'(?s)\\(.)', lambda m: m.group(1), text_item)
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
-- 
2.43.0


From 9bf6a998d09218847883572ec3bca6dc3b6255f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 18/64] fix: FieldSelector.startswith something longer is
 False, not an IndexError

---
 normalize/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 591f76d..55a933f 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -493,13 +493,13 @@ class FieldSelector(object):
                 that passed.
         """
         if isinstance(key_or_fs, (FieldSelector, list, tuple)):
-            return all(
+            return len(key_or_fs) <= len(self.selectors) and all(
                 key_or_fs[i] == self.selectors[i] for i in range(
                     0, len(key_or_fs),
                 )
             )
         else:
-            return self.selectors[0] == key_or_fs
+            return bool(self.selectors) and self.selectors[0] == key_or_fs
 
     @property
     def path(self):
-- 
2.43.0


From f5f527e02a1b52791c05d52906462a3ba37dc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 19/64] fix: the path of an empty MultiFieldSelector parses
 back as an empty one

---
 normalize/selector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 55a933f..4f88212 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -967,7 +967,8 @@ def _scan_mfs_path(path):
                 fs = list(stack[-1])
             else:
                 if not popping:
-                    mfs.append(fs)
+                    if fs:
+                        mfs.append(fs)
                     popping = True
                 fs = stack.pop()
         else:
-- 
2.43.0


From de0493a6716d740a5063720557fd0034f18c86b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 20/64] fix: subscripting a wildcard MultiFieldSelector by one
 item finds the wildcard's fields

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 4f88212..d0e7fda 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -739,7 +739,7 @@ class MultiFieldSelector(object):
                 return self  # XXX wat
 
         tail = (
-            self.heads[None] if self.complete else
+            self.heads[None] if self.has_none else
             self.heads.get(index, None)
         )
         return type(self).complete_mfs() if tail == all else tail
-- 
2.43.0


From b7717b71037debe1f9485a98ce1ba8a9a42ae2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 21/64] fix: MultiFieldSelector.delete removes the later list
 items first

---
 normalize/selector.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index d0e7fda..ed7f144 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -572,6 +572,14 @@ def _fmt_mfs_path(head, tail):
     )
 
 
+def _delete_order(fs):
+    """Sort key for deleting several locations: later list items go first, so
+    that the indices of those still to be deleted keep their meaning."""
+    return [
+        (x if x < 0 else -x) if isinstance(x, int) else 0 for x in fs.selectors
+    ]
+
+
 class _None(object):
     pass
 
@@ -882,7 +890,7 @@ class MultiFieldSelector(object):
                 except FieldSelectorException:
                     raise
 
-        for fs in self:
+        for fs in sorted(self, key=_delete_order):
             try:
                 fs.delete(obj)
             except FieldSelectorException:
-- 
2.43.0


From 0fb21961171912360f176f4b96307e8f497ad8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 22/64] fix: MultiFieldSelector.patch copies each field a
 wildcard selects

---
 normalize/selector.py | 54 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index ed7f144..89ffda5 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -580,8 +580,33 @@ def _delete_order(fs):
     ]
 
 
-class _None(object):
-    pass
+def _post_order(fs):
+    return [x if isinstance(x, int) else 0 for x in fs.selectors]
+
+
+def _expand_wildcards(fs, *objs):
+    """Yields the locations matched by ``fs`` in any of the passed objects,
+    with each wildcard which is followed by other components replaced by the
+    keys or indices of the collections found there."""
+    wild = None in fs.selectors[:-1] and fs.selectors.index(None)
+    if wild is False:
+        yield fs
+        return
+
+    keys = dict()  # used as an ordered set
+    for obj in objs:
+        coll = fs[:wild].get_or_none(obj)
+        if isinstance(coll, Collection):
+            pairs = coll.itertuples()
+        elif isinstance(coll, dict):
+            pairs = coll.items()
+        else:
+            pairs = enumerate(coll or ())
+        keys.update((k, None) for k, v in pairs)
+
+    for key in keys:
+        for x in _expand_wildcards(fs[:wild] + [key] + fs[wild + 1:], *objs):
+            yield x
 
 
 class MultiFieldSelector(object):
@@ -915,22 +940,25 @@ class MultiFieldSelector(object):
         """
         # TODO: this could also be a whole lot more efficient!
         fs_val = []
-        for fs in self:
-            try:
-                fs_val.append((fs, fs.get(source)))
-            except AttributeError:
-                fs_val.append((fs, _None))
-            except FieldSelectorException:
-                raise
+        missing = []
+        for mfs_fs in self:
+            for fs in _expand_wildcards(mfs_fs, source, target):
+                try:
+                    fs_val.append((fs, fs.get(source)))
+                except FieldSelectorException:
+                    missing.append(fs)
 
         if copy and not callable(copy):
             copy = deepcopy
 
-        for fs, val in fs_val:
-            if val is _None:
+        # set in index order, as post() only extends collections at their end
+        for fs, val in sorted(fs_val, key=lambda x: _post_order(x[0])):
+            fs.post(target, val if not copy else copy(val))
+        for fs in sorted(missing, key=_delete_order):
+            try:
                 fs.delete(target)
-            else:
-                fs.post(target, val if not copy else copy(val))
+            except FieldSelectorException:
+                pass
 
     @classmethod
     def from_path(cls, mfs_path):
-- 
2.43.0


From 2a9dcd64bfc084b0cac5309db46174ff3dcec9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 23/64] fix: a MultiFieldSelector combined with the complete
 one is complete

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 89ffda5..b792c88 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -650,7 +650,7 @@ class MultiFieldSelector(object):
         self.heads = dict(
             (head, all if all in tail else MultiFieldSelector(*tail))
             for head, tail in heads.items()
-        ) if None not in heads or heads[None] is not all else {None: all}
+        ) if all not in heads.get(None, ()) else {None: all}
 
         # sanity assertions follow
         head_types = set(type(x) for x in self.heads)
-- 
2.43.0


From 9ba53a69c190f9ec22a11aa560f820e826fb0648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 24/64] fix: JSON input converts plain records and their
 collections by their JSON names

---
 normalize/record/json.py | 46 +++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f571c84..b533314 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -38,17 +38,42 @@ from normalize.selector import FieldSelector
 
 
 def _json_to_value_initializer(json_val, proptype):
-    if proptype:
-        if isinstance(proptype, JsonRecord):
-            return json_val
-        elif hasattr(proptype, "from_json"):
-            return proptype.from_json(json_val)
-        elif isinstance(proptype, Record) and isinstance(json_val, dict):
-            return from_json(proptype, json_val)
+    if isinstance(proptype, type) and issubclass(proptype, Record) and \
+            isinstance(json_val, proptype):
+        # eg, json_in already returned a record
+        return json_val
+    elif proptype and hasattr(proptype, "from_json"):
+        return proptype.from_json(json_val)
+    elif isinstance(proptype, type) and issubclass(proptype, Collection):
+        return _json_to_collection_initializer(json_val, proptype)
+    elif isinstance(proptype, type) and issubclass(proptype, Record) and \
+            isinstance(json_val, dict):
+        return from_json(proptype, json_val)
 
     return json_val
 
 
+def _json_to_collection_initializer(json_val, colltype):
+    """Converts the members of a JSON array or object which is to be made into
+    a regular (ie, not JsonRecordList or JsonRecordDict) collection"""
+    if issubclass(colltype, RecordDict):
+        pairs, ctor = isinstance(json_val, dict) and json_val.items(), dict
+    else:
+        pairs, ctor = isinstance(json_val, list) and enumerate(json_val), list
+    if pairs is False:
+        # leave other things for the type to accept or refuse
+        return json_val
+
+    values = []
+    for k, v in pairs:
+        try:
+            v = _json_to_value_initializer(v, colltype.itemtype)
+        except Exception as e:
+            raise _box_ingress_error(k, e)
+        values.append((k, v) if ctor is dict else v)
+    return ctor(values)
+
+
 def _box_ingress_error(context, exception):
     error_fs = FieldSelector([context])
     if hasattr(exception, "error_fs"):
@@ -150,6 +175,11 @@ def from_json(record_type, json_struct):
     if issubclass(record_type, JsonRecord):
         return record_type(json_struct)
 
+    elif issubclass(record_type, Collection):
+        return record_type(
+            _json_to_collection_initializer(json_struct, record_type)
+        )
+
     elif issubclass(record_type, Record):
         # do what the default JsonRecord __init__ does
         init_kwargs = json_to_initkwargs(record_type, json_struct)
@@ -179,7 +209,7 @@ def _json_data(x, extraneous):
         has_json_data[type(x)] = htj
         if htj:
             argspec = inspect.getfullargspec(x.json_data)
-            tjte = 'extraneous' in argspec.args or argspec.kwonlyargs
+            tjte = 'extraneous' in argspec.args + argspec.kwonlyargs
             json_data_takes_extraneous[type(x)] = tjte
             if tjte:
                 return x.json_data(extraneous=extraneous)
-- 
2.43.0


From f76c7ccf676ebed458ed3e31a146105d2f8ba3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 25/64] fix: repr of a JsonRecordDict

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index b533314..15f8201 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -527,7 +527,7 @@ class JsonRecordDict(RecordDict, JsonRecord):
         return to_json(self, extraneous)
 
     def __repr__(self):
-        super_repr = super(JsonRecordList, self).__repr__()
+        super_repr = super(JsonRecordDict, self).__repr__()
         return super_repr.replace("{", "values={", 1)
 
 
-- 
2.43.0


From fc21d3238e139016e1996a8cebec441512de1bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 26/64] fix: records with an empty collection can be hashed,
 printed and matched

---
 normalize/diff.py     | 2 +-
 normalize/identity.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index aa36428..7bb7946 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -531,7 +531,7 @@ def collection_generator(collection):
 
 def _nested_falsy(x):
     if isinstance(x, tuple):
-        return not all(not _nested_falsy(y) for y in x)
+        return not x or any(_nested_falsy(y) for y in x)
     else:
         return x is _nothing or not x
 
diff --git a/normalize/identity.py b/normalize/identity.py
index 759fe23..8d2f0ba 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -85,7 +85,7 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
             )
-            val_pk = ()
+            val_pk = None
             set_elements = 0
             for value_type in value_type_list:
                 if issubclass(value_type, normalize.record.Record):
@@ -93,11 +93,12 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                                    selector[prop.name] if selector else None,
                                    normalize_object_slot)
                     pk_elements = len([x for x in pk if x is not None])
-                    if not val_pk or pk_elements > set_elements:
+                    if val_pk is None or pk_elements > set_elements:
                         val_pk = pk
                         set_elements = pk_elements
 
-            val_pk = val_pk or val
+            if val_pk is None:
+                val_pk = val
             try:
                 val_pk.__hash__()
             except TypeError:
-- 
2.43.0


From 7053d81e3007aae83a8dab13eb27bd25196a0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 27/64] fix: identify the value a slot has, not the types it
 might have had

---
 normalize/identity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/identity.py b/normalize/identity.py
index 8d2f0ba..24924cd 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -85,6 +85,11 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
             )
+            own_types = tuple(x for x in value_type_list if isinstance(val, x))
+            if own_types or (normalize_object_slot and
+                             hasattr(prop, "compare_as")):
+                # not to be taken for an(other) type it might have been
+                value_type_list = own_types
             val_pk = None
             set_elements = 0
             for value_type in value_type_list:
-- 
2.43.0


From 60fe3d52a8256aa64957c6ccc9327128acde7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 28/64] fix: equal records with dict collections have equal
 hashes

---
 normalize/identity.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index 24924cd..9079a00 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -20,6 +20,14 @@ import normalize.exc as exc
 import normalize.record
 
 
+def _in_key_order(tuples):
+    tuples = list(tuples)
+    try:
+        return sorted(tuples, key=lambda kv: kv[0])
+    except TypeError:
+        return sorted(tuples, key=lambda kv: (type(kv[0]).__name__, repr(kv[0])))
+
+
 def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
     """Implementation of id() which is overridable and knows about record's
     primary_key property.  Returns if the two objects may be the "same";
@@ -51,11 +59,12 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
     if not pk_cols and issubclass(
         type_, normalize.coll.Collection
     ):
-        # FIXME: unordered collections will rarely match each other
         gen = (
             object_.itertuples() if hasattr(object_, "itertuples") else
             type_.coll_to_tuples(object_)
         )
+        if issubclass(type_, normalize.coll.DictCollection):
+            gen = _in_key_order(gen)
         return tuple(
             record_id(
                 v, type_.itemtype, selector[k], normalize_object_slot,
-- 
2.43.0


From 9b2938ee56b7432870f513e5d1b698c53ddc0f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 29/64] fix: copies and pickles of generic collections keep
 extra attributes and cycles

---
 normalize/coll.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 2a4dfef..0f207d9 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -464,10 +464,14 @@ class _GenericPickler(object):
     def __init__(self, typekey):
         self.typekey = typekey
 
-    def __call__(self, values):
+    def __call__(self, *values):
         if (len(self.typekey) > 1) and (self.typekey[1].startswith('__builtin__')):
             self.typekey = (self.typekey[0], self.typekey[1].replace('__builtin__', 'builtins'))
-        return GENERIC_TYPES[self.typekey](values=values)
+        generic_type = GENERIC_TYPES[self.typekey]
+        if values:
+            # as pickled by earlier versions
+            return generic_type(values=values[0])
+        return generic_type.__new__(generic_type)
 
 
 class _Generic(Collection):
@@ -475,7 +479,9 @@ class _Generic(Collection):
     things."""
     def __reduce__(self):
         """helper method for pickling"""
-        return (_GenericPickler(type(self).generic_key), (self._values,))
+        return (
+            _GenericPickler(type(self).generic_key), (), self.__getstate__(),
+        )
 
 
 def _make_generic(of, coll):
-- 
2.43.0


From fe295c799d1792b43ca9beaa41f0d342ed0873f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 30/64] fix: a shallow copy of a collection has members of its
 own

---
 normalize/coll.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index 0f207d9..ac90dbe 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -131,6 +131,13 @@ class Collection(Record):
         """Forwarded to the ``values`` property."""
         return len(self._values)
 
+    def __copy__(self):
+        """A shallow copy shares the members, but not the container."""
+        copied = type(self).__new__(type(self))
+        copied.__setstate__(self.__getstate__())
+        copied._values = self.colltype(self._values)
+        return copied
+
     @classmethod
     def coerce_value(cls, v):
         """Coerce a value to the right type for the collection, or return it if
-- 
2.43.0


From bf282470900bd08aa1ea2a0e13e2dc604ffa49b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 31/64] fix: same-named collection classes of different modules
 are different

---
 normalize/coll.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index ac90dbe..d829c19 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -507,15 +507,18 @@ def _make_generic(of, coll):
 
     assert(issubclass(coll, Collection))
     key = (coll.__name__, "%s.%s" % (of.__module__, of.__name__))
-    if key in GENERIC_TYPES:
-        if GENERIC_TYPES[key].itemtype != of:
-            raise exc.PropertyNotUnique(key=key)
-    else:
+    if not coll.__module__.startswith("normalize."):
+        key = ("%s.%s" % (coll.__module__, coll.__name__), key[1])
+    if key in GENERIC_TYPES and GENERIC_TYPES[key].itemtype != of:
+        raise exc.PropertyNotUnique(key=key)
+    if key not in GENERIC_TYPES or not issubclass(GENERIC_TYPES[key], coll):
         # oh, we get to name it?  Goodie!
         generic_name = "%s%s" % (of.__name__, coll.suffix)
         GENERIC_TYPES[key] = type(
             generic_name, (coll, _Generic), dict(itemtype=of, generic_key=key)
         )
+        # as named in pickles made by earlier versions
+        GENERIC_TYPES.setdefault((coll.__name__, key[1]), GENERIC_TYPES[key])
         mod = sys.modules[of.__module__]
         if not hasattr(mod, generic_name):
             setattr(mod, generic_name, GENERIC_TYPES[key])
-- 
2.43.0


From eef0da02eb066f3d16216f16e38b8e71a2972e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 32/64] fix: field selectors report ill-fitting paths as their
 own error, and wildcards stand for the values of a dict

---
 normalize/selector.py | 87 ++++++++++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 26 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index b792c88..11275b3 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -31,13 +31,38 @@ from normalize.exc import FieldSelectorKeyError
 
 
 def _try_index(instance, selector):
-    if isinstance(instance, str):
+    if isinstance(instance, str) or not hasattr(instance, "__getitem__"):
+        if isinstance(selector, int):
+            raise FieldSelectorKeyError(key=selector)
         return False
-    if isinstance(selector, int):
-        return True
-    if getattr(instance, "__getitem__", False):
-        return True
-    return False
+    if isinstance(selector, str) and \
+            isinstance(instance, (ListCollection, list, tuple)):
+        # not an index; may be an attribute
+        return False
+    return True
+
+
+def _members(instance):
+    """Returns what a wildcard stands for"""
+    if isinstance(instance, (DictCollection, dict)):
+        return list(instance.values())
+    elif isinstance(instance, str) or not hasattr(instance, "__iter__"):
+        raise FieldSelectorKeyError(key=None)
+    return instance
+
+
+def _replace_members(instance, value):
+    _members(instance)
+    if isinstance(instance, DictCollection):
+        instance._values = instance.tuples_to_coll(
+            instance.coll_to_tuples(value)
+        )
+    elif isinstance(instance, dict):
+        value = dict(value)
+        instance.clear()
+        instance.update(value)
+    else:
+        instance[:] = value
 
 
 def _vivify(type_, kwarg):
@@ -153,7 +178,7 @@ class FieldSelector(object):
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 rv = []
                 all_exc = None
-                for r in record:
+                for r in _members(record):
                     val = None
                     try:
                         val = sub_field_selector.get(r)
@@ -203,7 +228,7 @@ class FieldSelector(object):
         if len(self.selectors) == 1:
             selector = self.selectors[0]
             if selector is None:
-                record[:] = value
+                _replace_members(record, value)
             elif _try_index(record, selector):
                 try:
                     record[selector] = value
@@ -224,7 +249,7 @@ class FieldSelector(object):
             selector = self.selectors[0]
             sub_selector = type(self)(self.selectors[1:])
             if selector is None:
-                for x in record:
+                for x in _members(record):
                     sub_selector.put(x, value)
             else:
                 if _try_index(record, selector):
@@ -264,7 +289,9 @@ class FieldSelector(object):
         for selector in self.selectors[:-1]:
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
-                return sum(sub_field_selector.post(r, value) for r in record)
+                return sum(
+                    sub_field_selector.post(r, value) for r in _members(record)
+                )
 
             # supports the case where an item is created by setting
             # a single required field value
@@ -341,7 +368,7 @@ class FieldSelector(object):
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 all_exc = None
-                for r in record:
+                for r in _members(record):
                     try:
                         sub_field_selector.delete(r)
                         all_exc = False
@@ -363,18 +390,18 @@ class FieldSelector(object):
                 record = getattr(record, selector)
             i = i + 1
         to_delete = self.selectors[-1]
-        if _try_index(record, to_delete):
-            if to_delete is None:
-                # empty out a collection
-                if hasattr(record, "clear") and callable(record.clear):
-                    record.clear()
-                else:
-                    record[:] = ()
+        if to_delete is None:
+            # empty out a collection
+            _members(record)
+            if hasattr(record, "clear") and callable(record.clear):
+                record.clear()
             else:
-                try:
-                    del record[to_delete]
-                except LookupError:
-                    raise FieldSelectorKeyError(key=to_delete)
+                record[:] = ()
+        elif _try_index(record, to_delete):
+            try:
+                del record[to_delete]
+            except LookupError:
+                raise FieldSelectorKeyError(key=to_delete)
         else:
             if hasattr(record, to_delete):
                 delattr(record, to_delete)
@@ -586,10 +613,18 @@ def _post_order(fs):
 
 def _expand_wildcards(fs, *objs):
     """Yields the locations matched by ``fs`` in any of the passed objects,
-    with each wildcard which is followed by other components replaced by the
-    keys or indices of the collections found there."""
-    wild = None in fs.selectors[:-1] and fs.selectors.index(None)
-    if wild is False:
+    with each wildcard which is followed by other components, or stands for the
+    values of a mapping, replaced by the keys or indices of the collections
+    found there."""
+    if None not in fs.selectors:
+        yield fs
+        return
+
+    wild = fs.selectors.index(None)
+    if wild == len(fs) - 1 and not any(
+        isinstance(fs[:wild].get_or_none(obj), (dict, DictCollection))
+        for obj in objs
+    ):
         yield fs
         return
 
-- 
2.43.0


From 65bfa6f2a5cd115838594361149a0aec35cbbd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 33/64] fix: to_json() writes the unknown keys of the
 JsonRecord it is given

---
 normalize/record/json.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 15f8201..f00cf94 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -271,6 +271,8 @@ def to_json(record, extraneous=True, prop=None):
                     rv_dict[json_name] = to_json(record, extraneous, prop)
                 except AttributeError:
                     pass
+        if isinstance(record, JsonRecord):
+            record._merge_unknown_json_keys(rv_dict, extraneous)
         return rv_dict
 
     elif isinstance(record, int):
@@ -356,14 +358,20 @@ class JsonRecord(Record):
         2. the ``unknown_json_keys`` property on this class is replaced by one
            not marked as ``extraneous``
         """
-        jd = to_json(self, extraneous)
+        return to_json(self, extraneous)
+
+    def _merge_unknown_json_keys(self, jd, extraneous):
         if hasattr(self, "unknown_json_keys"):
             prop = type(self).properties['unknown_json_keys']
             if extraneous or not prop.extraneous:
                 for k, v in self.unknown_json_keys.items():
+                    k = type(self)._unknown_json_key_out(k)
                     if k not in jd:
-                        jd[k] = to_json(v, extraneous)
-        return jd
+                        jd[k] = _json_data(v, extraneous)
+
+    @classmethod
+    def _unknown_json_key_out(cls, key):
+        return key
 
     def diff_iter(self, other, **kwargs):
         """Generator method which returns the differences from the invocant to
@@ -601,16 +609,9 @@ class AutoJsonRecord(JsonRecord):
             }
         return kwargs
 
-    def json_data(self, extraneous=False):
-        jd = to_json(self, extraneous)
-        if hasattr(self, "unknown_json_keys"):
-            prop = type(self).properties['unknown_json_keys']
-            if extraneous or not prop.extraneous:
-                for k, v in self.unknown_json_keys.items():
-                    k = type(self).convert_json_key_out(k)
-                    if k not in jd:
-                        jd[k] = to_json(v, extraneous)
-        return jd
+    @classmethod
+    def _unknown_json_key_out(cls, key):
+        return cls.convert_json_key_out(key)
 
     def __getattr__(self, attr):
         if attr in type(self).properties:
-- 
2.43.0


From c333f372e8a4ed9d33a3f288c1494a70ddae4c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 34/64] fix: items of plain collections are compared by value,
 not by repr()

---
 normalize/diff.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 7bb7946..41ce386 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -789,6 +789,24 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                 )
 
 
+def _item_key(value):
+    """Returns something hashable, to tell the items of 'simple' collections
+    apart by: items are equal if what is returned for them is."""
+    if isinstance(value, list):
+        return (list, tuple(_item_key(x) for x in value))
+    elif isinstance(value, tuple):
+        return (tuple, tuple(_item_key(x) for x in value))
+    elif isinstance(value, dict):
+        return (dict, frozenset((k, _item_key(v)) for k, v in value.items()))
+    elif isinstance(value, set):
+        return frozenset(value)
+    try:
+        hash(value)
+    except Exception:
+        return repr(value)
+    return value
+
+
 def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                       options=None):
     """Generator for comparing 'simple' lists when they are encountered.  This
@@ -812,8 +830,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _item_key(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = i
@@ -897,8 +914,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _item_key(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = k
-- 
2.43.0


From 7ea42d7c9a1182bfebb9f7a9342cc429a33c5302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 35/64] fix: comparing collections does not call compare_as
 with values that are not in the records

---
 normalize/identity.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index 9079a00..ca7746d 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -20,6 +20,9 @@ import normalize.exc as exc
 import normalize.record
 
 
+_unset = object()
+
+
 def _in_key_order(tuples):
     tuples = list(tuples)
     try:
@@ -82,14 +85,17 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
             )
 
     for prop in pk_cols or all_properties:
-        val = getattr(object_, prop.name, None)
+        val = getattr(object_, prop.name, _unset)
         if normalize_object_slot:
-            val = normalize_object_slot(val, prop, object_)
-        _none = (
-            normalize_object_slot(None, prop, object_) if
-            normalize_object_slot else None
-        )
-        if val is not _none and prop.valuetype:
+            # what stands for slots which are not set
+            nothing = normalize_object_slot(prop=prop, obj=object_)
+            if val is not _unset:
+                val = normalize_object_slot(val, prop, object_)
+            if val is nothing:
+                val = _unset
+        if val is _unset:
+            val = None
+        if val is not None and prop.valuetype:
             value_type_list = (
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
-- 
2.43.0


From 874da4b45ef39d646cc6f3701c372f3ccc05b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 36/64] fix: collections inside of items are identified by
 their normalized items

---
 normalize/diff.py     |  3 ++-
 normalize/identity.py | 31 ++++++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 41ce386..5a9316b 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -327,7 +327,8 @@ class DiffOptions(object):
         """Retrieve an object identifier from the given record; if it is an
         alien class, and the type is provided, then use duck typing to get the
         corresponding fields of the alien class."""
-        pk = record_id(record, type_, selector, self.normalize_object_slot)
+        pk = record_id(record, type_, selector, self.normalize_object_slot,
+                       self.normalize_item)
         return pk
 
     def id_args(self, type_, fs):  # XXX deprecated
diff --git a/normalize/identity.py b/normalize/identity.py
index ca7746d..60bc875 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -31,7 +31,26 @@ def _in_key_order(tuples):
         return sorted(tuples, key=lambda kv: (type(kv[0]).__name__, repr(kv[0])))
 
 
-def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
+def _is_record_type(type_):
+    return isinstance(type_, type) and issubclass(
+        type_, normalize.record.Record
+    )
+
+
+def _normalized_items(coll, items, itemtype, normalize_item):
+    """Yields the items of collections of things other than records, as they
+    are to be compared, without those which count as not there at all"""
+    nothing = normalize_item(coll=coll)
+    for key, value in items:
+        if not (_is_record_type(itemtype) or _is_record_type(type(value))):
+            value = normalize_item(value, coll, key)
+            if value is nothing:
+                continue
+        yield key, value
+
+
+def record_id(object_, type_=None, selector=None, normalize_object_slot=None,
+              normalize_item=None):
     """Implementation of id() which is overridable and knows about record's
     primary_key property.  Returns if the two objects may be the "same";
     returns None for other types, meaning all bets about identity are off.
@@ -68,12 +87,18 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
         )
         if issubclass(type_, normalize.coll.DictCollection):
             gen = _in_key_order(gen)
+        if normalize_item:
+            gen = _normalized_items(
+                object_, gen, type_.itemtype, normalize_item,
+            )
         return tuple(
             record_id(
                 v, type_.itemtype, selector[k], normalize_object_slot,
+                normalize_item,
             ) for k, v in gen if selector[(k,)]
         ) if selector else tuple(
-            record_id(v, type_.itemtype, None, normalize_object_slot) for
+            record_id(v, type_.itemtype, None, normalize_object_slot,
+                      normalize_item) for
             k, v in gen
         )
 
@@ -111,7 +136,7 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 if issubclass(value_type, normalize.record.Record):
                     pk = record_id(val, value_type,
                                    selector[prop.name] if selector else None,
-                                   normalize_object_slot)
+                                   normalize_object_slot, normalize_item)
                     pk_elements = len([x for x in pk if x is not None])
                     if val_pk is None or pk_elements > set_elements:
                         val_pk = pk
-- 
2.43.0


From 6b92be45eac86ab1fe1bd63e2ee7439af6b774bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 37/64] fix: compare_filter selects single items of collections

---
 normalize/diff.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 5a9316b..7967941 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -652,7 +652,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
 
         for k, v in collection_generator(propval_x):
             if callable(id_args):
-                if fs_a + [k] not in options.compare_filter:
+                if not options.compare_filter[fs_a + [k]]:
                     continue
             pk = options.record_id(
                 v, **(id_args(k) if callable(id_args) else id_args))
@@ -828,6 +828,10 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         rev_key = indices[x] = dict()
         seen = collections.Counter()
         for i, v in collection_generator(propval_x):
+            if options.compare_filter and not (
+                options.compare_filter[fs_a + [i]]
+            ):
+                continue
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
@@ -912,6 +916,10 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         rev_key = rev_keys[x] = dict()
         seen = collections.Counter()
         for k, v in collection_generator(propval_x):
+            if options.compare_filter and not (
+                options.compare_filter[fs_a + [k]]
+            ):
+                continue
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-- 
2.43.0


From 22d826509c546de802db8890f6a6b35143e57293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 38/64] fix: items of different types in compared collections
 are modified, not an error

---
 normalize/diff.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 7967941..3f87046 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -588,6 +588,23 @@ def _fuzzy_match(set_a, set_b):
             break
 
 
+def _compare_item_iter(a_val, b_val, fs_a, fs_b, options):
+    """Compares two items of collections which were matched.  As for slots,
+    items of different types are different, and there is no descent."""
+    if _items_comparable(a_val, b_val, options):
+        return _diff_iter(a_val, b_val, fs_a, fs_b, options)
+    return iter((
+        DiffInfo(diff_type=DiffTypes.MODIFIED, base=fs_a, other=fs_b),
+    ))
+
+
+def _items_comparable(a_val, b_val, options):
+    return (
+        options.duck_type or type(a_val) == type(b_val) or
+        a_val is _nothing or b_val is _nothing
+    )
+
+
 # There's a lot of repetition in the following code.  It could be served by one
 # function instead of 3, which would be 3 times fewer places to have bugs, but
 # it would probably also be more than 3 times as difficult to debug.
@@ -677,8 +694,8 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         for key in shared_keys:
             if (isinstance(propval_a, collections.abc.Iterable) and
                isinstance(propval_b, collections.abc.Iterable)):
-                diffs = _diff_iter(propval_a[key], propval_b[key],
-                                   fs_a + [key], fs_b + [key], options)
+                diffs = _compare_item_iter(propval_a[key], propval_b[key],
+                                           fs_a + [key], fs_b + [key], options)
 
                 for diff in diffs:
                     yield diff
@@ -716,7 +733,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                         b_val = _nothing
                 selector_a = fs_a + a_key
                 selector_b = fs_b + b_key
-                for diff in _diff_iter(
+                for diff in _compare_item_iter(
                     a_val, b_val, selector_a, selector_b, options,
                 ):
                     yield diff
@@ -732,7 +749,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                     selector_a = fs_a + a_key
                     selector_b = fs_b + b_key
                     any_diffs = False
-                    for diff in _diff_iter(
+                    for diff in _compare_item_iter(
                         a_val, b_val, selector_a, selector_b, options,
                     ):
                         if diff.diff_type != DiffTypes.NO_CHANGE:
@@ -763,7 +780,9 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                         base=fs_a + [a_key],
                         other=fs_b + [b_key],
                     )
-                elif options.unchanged:
+                elif options.unchanged and _items_comparable(
+                    propval_a[a_key], propval_b[b_key], options,
+                ):
                     yield DiffInfo(
                         diff_type=DiffTypes.NO_CHANGE,
                         base=fs_a + [a_key],
-- 
2.43.0


From 4b924991b1c59955c8f86213206de6cb7e2a0208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 39/64] fix: equal entries of compared dictionaries are paired
 by key

---
 normalize/diff.py | 62 ++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 3f87046..3a63e81 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -605,6 +605,29 @@ def _items_comparable(a_val, b_val, options):
     )
 
 
+def _tell_apart(ids_a, ids_b, by_key):
+    """Numbers items which have the same identity, so that those with the same
+    number are the ones to be taken for each other.  Where keys mean something
+    (``by_key``), then those with the same key are, before any others.
+
+    Returns for each side a set of (identity, number), and a dictionary to get
+    from those to the keys of the items.
+    """
+    same_key = set(ids_b) if by_key else set()
+    first = [x for x in ids_a if x in same_key]
+    same_key.intersection_update(first)
+    values = dict()
+    rev_keys = dict()
+    for x, ids in ("a", ids_a), ("b", ids_b):
+        rev_key = rev_keys[x] = dict()
+        seen = collections.Counter()
+        for id_, key in chain(first, (y for y in ids if y not in same_key)):
+            rev_key[id_, seen[id_]] = key
+            seen[id_] += 1
+        values[x] = set(rev_key)
+    return values, rev_keys
+
+
 # There's a lot of repetition in the following code.  It could be served by one
 # function instead of 3, which would be 3 times fewer places to have bugs, but
 # it would probably also be more than 3 times as difficult to debug.
@@ -629,8 +652,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         options = DiffOptions()
 
     propvals = dict(a=propval_a, b=propval_b)
-    values = dict()
-    rev_keys = dict()
+    ids = dict(a=[], b=[])
     compare_values = None
     coll_type = (
         type(propval_a) if propval_a is not _nothing else type(propval_b)
@@ -662,10 +684,6 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
 
     for x in "a", "b":
         propval_x = propvals[x]
-        vals = values[x] = set()
-        rev_key = rev_keys[x] = dict()
-
-        seen = collections.Counter()
 
         for k, v in collection_generator(propval_x):
             if callable(id_args):
@@ -680,9 +698,11 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                 # the value type is a Record, and hence descent is
                 # possible.
                 compare_values = isinstance(pk, tuple)
-            vals.add((pk, seen[pk]))
-            rev_key[(pk, seen[pk])] = k
-            seen[pk] += 1
+            ids[x].append((pk, k))
+
+    values, rev_keys = _tell_apart(
+        ids["a"], ids["b"], by_key=issubclass(coll_type, DictCollection),
+    )
 
     if options.recurse:
         # we can be sure that both records have these keys
@@ -839,13 +859,9 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
     if not options:
         options = DiffOptions()
     propvals = dict(a=propval_a, b=propval_b)
-    values = dict()
-    indices = dict()
+    ids = dict(a=[], b=[])
     for x in "a", "b":
         propval_x = propvals[x]
-        vals = values[x] = set()
-        rev_key = indices[x] = dict()
-        seen = collections.Counter()
         for i, v in collection_generator(propval_x):
             if options.compare_filter and not (
                 options.compare_filter[fs_a + [i]]
@@ -856,9 +872,9 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             )
             v = _item_key(v)
             if v is not _nothing or not options.ignore_empty_slots:
-                vals.add((v, seen[v]))
-                rev_key[(v, seen[v])] = i
-                seen[v] += 1
+                ids[x].append((v, i))
+
+    values, indices = _tell_apart(ids["a"], ids["b"], by_key=False)
 
     removed = values['a'] - values['b']
     added = values['b'] - values['a']
@@ -927,13 +943,9 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
     if not options:
         options = DiffOptions()
     propvals = dict(a=propval_a, b=propval_b)
-    values = dict()
-    rev_keys = dict()
+    ids = dict(a=[], b=[])
     for x in "a", "b":
         propval_x = propvals[x]
-        vals = values[x] = set()
-        rev_key = rev_keys[x] = dict()
-        seen = collections.Counter()
         for k, v in collection_generator(propval_x):
             if options.compare_filter and not (
                 options.compare_filter[fs_a + [k]]
@@ -944,9 +956,9 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             )
             v = _item_key(v)
             if v is not _nothing or not options.ignore_empty_slots:
-                vals.add((v, seen[v]))
-                rev_key[(v, seen[v])] = k
-                seen[v] += 1
+                ids[x].append((v, k))
+
+    values, rev_keys = _tell_apart(ids["a"], ids["b"], by_key=True)
 
     removed = values['a'] - values['b']
     added = values['b'] - values['a']
-- 
2.43.0


From 6896106a971a49e07376c7ab0cc1a8400b6f19ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 40/64] fix: casting to type unions with record types accepts
 the other types, and empty collections

---
 normalize/exc.py     | 2 +-
 normalize/visitor.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 16a1fa9..64067c5 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -466,7 +466,7 @@ class VisitorPropError(VisitorException):
     )
 
 
-class VisitorGrokRecordError(VisitorException):
+class VisitorGrokRecordError(VisitorException, TypeError):
     message = (
         u"{val} found where I'm expecting to unpack a "
         u"{record_type_name} record at {field_selector}"
diff --git a/normalize/visitor.py b/normalize/visitor.py
index 2e42d87..0473f5d 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -749,10 +749,10 @@ class VisitorPattern(object):
                 else:
                     # this could also be the wrong thing when mapping
                     # over types.
-                    if mapped:
+                    if mapped or isinstance(mapped, value_type):
                         break
 
-            if not mapped:
+            if not mapped and not isinstance(mapped, Record):
                 mapped = visitor.apply(value, prop, visitor)
 
         return mapped
-- 
2.43.0


From d3966fc6a8a291be296ab386bbf8227aede17330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 41/64] fix: apply_empty_slots applies to empty slots of all
 types, and to nothing that is not a slot

---
 normalize/visitor.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 0473f5d..3b019f8 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -662,10 +662,12 @@ class VisitorPattern(object):
                     fs=rv.field_selector,
                 )
 
-            if visitor.apply_empty_slots or not isinstance(
-                value, (KeyError, AttributeError),
-            ):
-                mapped = cls.map_prop(rv, value, prop)
+            empty = isinstance(value, (KeyError, AttributeError))
+            if visitor.apply_empty_slots or not empty:
+                mapped = (
+                    visitor.apply(value, prop, rv) if empty else
+                    cls.map_prop(rv, value, prop)
+                )
                 if mapped is None and rv.ignore_none:
                     pass
                 elif mapped == "" and rv.ignore_empty_string:
@@ -707,6 +709,9 @@ class VisitorPattern(object):
 
         return mapped
 
+    # types of values in type unions which might stand for a record type
+    container_types = (collections.abc.Mapping, list, tuple, set, frozenset)
+
     @classmethod
     def map_type_union(cls, visitor, value, type_tuple, prop):
         # This corner-case method applies when visiting a value and
@@ -721,6 +726,7 @@ class VisitorPattern(object):
         # tried.
         record_types = []
         matching_record_types = []
+        scalar_types = []
 
         for value_type in type_tuple:
             if issubclass(value_type, Record):
@@ -729,6 +735,11 @@ class VisitorPattern(object):
                 # hook, as it only really applies to 'visit', not 'grok'
                 if isinstance(value, value_type):
                     matching_record_types.append(value_type)
+            elif not issubclass(value_type, cls.container_types):
+                scalar_types.append(value_type)
+
+        if isinstance(value, tuple(scalar_types)):
+            return visitor.apply(value, prop, visitor)
 
         mapped = None
         if matching_record_types:
-- 
2.43.0


From 6ce658b46f0ba69018bd4170135bdb53d3887262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 42/64] fix: visiting plain values by their type reads
 dictionaries, and reports what is not a collection

---
 normalize/visitor.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 3b019f8..6ed058c 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -232,15 +232,21 @@ class VisitorPattern(object):
                 else:
                     raise exc.VisitorUnpackError(
                         passed=value,
-                        colltype=value_type.colltype.__name__,
+                        colltype=value_type.colltype,
                         context=visitor,
                     )
         else:
             generator = None
 
         if issubclass(value_type, Record):
-            def propget(prop):
-                return prop.__get__(value)
+            if isinstance(value, collections.abc.Mapping) and not isinstance(
+                value, Record
+            ):
+                def propget(prop):
+                    return value[prop.name]
+            else:
+                def propget(prop):
+                    return prop.__get__(value)
         else:
             propget = None
 
-- 
2.43.0


From fb0027b37e67abc62a599d0c1679a081a7c7bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 43/64] fix: casting to a record type without properties of
 interest makes a record

---
 normalize/visitor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 6ed058c..0ccd079 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -413,9 +413,12 @@ class VisitorPattern(object):
         ``value_type`` is not appropriate for ``value``.
         """
         is_coll = issubclass(value_type, Collection)
-        is_record = issubclass(value_type, Record) and any(
-            not visitor.is_filtered(prop) for prop in
-            list(value_type.properties.values())
+        # collections without properties of interest are just their items
+        is_record = issubclass(value_type, Record) and (
+            not is_coll or any(
+                not visitor.is_filtered(prop) for prop in
+                list(value_type.properties.values())
+            )
         )
 
         if is_record and not isinstance(value, cls.grok_mapping_types):
-- 
2.43.0


From 8999606774e7e5c3a7e01404c793318ee395ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 44/64] fix: visitor filters select single items of collections

---
 normalize/visitor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 0ccd079..332f10b 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -90,6 +90,11 @@ class Visitor(object):
             self.visit_filter and not self.visit_filter[self.cue + [prop.name]]
         )
 
+    def is_item_filtered(self, key):
+        return self.visit_filter and not isinstance(key, type) and (
+            not self.visit_filter[self.cue + [key]]
+        )
+
     @property
     def field_selector(self):
         return FieldSelector(self.cue)
@@ -689,6 +694,8 @@ class VisitorPattern(object):
     def map_collection(cls, visitor, coll_generator, coll_type):
         rv = visitor.copy()
         for key, value in coll_generator:
+            if rv.is_item_filtered(key):
+                continue
             rv.push(key)
             mapped = cls.map(rv, value, coll_type.itemtype)
             rv.pop(key)
-- 
2.43.0


From 460de16f02e6fa71cc6eef9c755f3ac64a2418f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 45/64] fix: attributes of auto JSON records can be assigned
 and deleted, and missing ones are AttributeErrors

---
 normalize/record/json.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f00cf94..f0035fa 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -616,20 +616,29 @@ class AutoJsonRecord(JsonRecord):
     def __getattr__(self, attr):
         if attr in type(self).properties:
             return type(self).properties[attr].__get__(self)
-        else:
+        try:
             return self.unknown_json_keys[attr]
+        except KeyError:
+            raise AttributeError(
+                "'%s' object has no attribute '%s'" % (
+                    type(self).__name__, attr,
+                )
+            )
 
     def __setattr__(self, attr, value):
-        if attr in type(self).properties:
-            return type(self).properties[attr].__set__(self)
+        if hasattr(type(self), attr):
+            super(AutoJsonRecord, self).__setattr__(attr, value)
         else:
-            self.unknown_json_keys[attr]
+            self.unknown_json_keys[attr] = value
 
-    def __delattr__(self, attr, value):
-        if attr in type(self).properties:
-            return type(self).properties[attr].__del__(self)
+    def __delattr__(self, attr):
+        if hasattr(type(self), attr):
+            super(AutoJsonRecord, self).__delattr__(attr)
         else:
-            del self.unknown_json_keys[attr]
+            try:
+                del self.unknown_json_keys[attr]
+            except KeyError:
+                raise AttributeError(attr)
 
 
 class NCAutoJsonRecord(AutoJsonRecord):
-- 
2.43.0


From 19d5eb3a2bc41f4563ee323c7d6d6be4efea2dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 46/64] fix: auto JSON records read lists in which only some
 members are objects

---
 normalize/record/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f0035fa..fe4da70 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -565,7 +565,7 @@ class AutoJsonRecord(JsonRecord):
 
     @classmethod
     def auto_upgrade_list(cls, thing):
-        if len(thing) and isinstance(thing[0], dict):
+        if len(thing) and all(isinstance(x, dict) for x in thing):
             return list_of(AutoJsonRecord)(thing)
         else:
             return thing
@@ -658,7 +658,7 @@ class NCAutoJsonRecord(AutoJsonRecord):
 
     @classmethod
     def auto_upgrade_list(cls, thing):
-        if len(thing) and isinstance(thing[0], dict):
+        if len(thing) and all(isinstance(x, dict) for x in thing):
             return list_of(NCAutoJsonRecord)(thing)
         else:
             return thing
-- 
2.43.0


From a767c5ba236805a842b5cf3388ac1b9e1abb70a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 47/64] fix: iterating over an empty placeholder ends (C26)

---
 normalize/empty.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalize/empty.py b/normalize/empty.py
index c631ef7..a83fc91 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -124,6 +124,9 @@ class EmptyVal(object):
                 self._member_type = placeholder(any)
         return self._member_type
 
+    def __iter__(self):
+        return iter(())
+
     def __bool__(self):
         return False
 
-- 
2.43.0


From 8578f08029701784a335b295f7a5a3f0e36d334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:36 +0000
Subject: [PATCH 48/64] fix: the empty pseudo-attributes are read-only, as
 documented (C26)

---
 normalize/property/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 633a18e..70e8ab0 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -320,6 +320,9 @@ class EmptyAuxProp(object):
         except AttributeError:
             return empty.placeholder(self.valuetype)
 
+    def __set__(self, obj, value):
+        raise exc.ReadOnlyAttributeError(attrname=self.prop.empty_attr)
+
 
 class LazyProperty(Property):
     """This declares a property which has late evaluation using its 'default'
-- 
2.43.0


From 0ef60ced1423051d24c5cd22472a66f4133e2b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 49/64] fix: empty placeholders of types without items cannot
 be sliced (C26)

---
 normalize/empty.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index a83fc91..c46d7d3 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -105,9 +105,7 @@ class EmptyVal(object):
     def __getitem__(self, item):
         if self._typetuple is any:
             return self
-        if isinstance(item, slice):
-            return self
-        elif self._member_type is None:
+        if self._member_type is None:
             coll_types = []
             for type_ in self._typetuple:
                 is_coll = issubclass(type_, normalize.coll.Collection)
@@ -122,7 +120,7 @@ class EmptyVal(object):
                 self._member_type = placeholder(tuple(itertypes(coll_types)))
             else:
                 self._member_type = placeholder(any)
-        return self._member_type
+        return self if isinstance(item, slice) else self._member_type
 
     def __iter__(self):
         return iter(())
-- 
2.43.0


From 278052ffe31b9e28080fc066061a136f5301bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:38 +0000
Subject: [PATCH 50/64] fix: empty placeholders allow inherited item access,
 calls and attributes (C26)

---
 normalize/empty.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index c46d7d3..262b6d8 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -6,6 +6,13 @@ import normalize
 EMPTY_VALS = dict()
 
 
+def implements(type_, special):
+    """Returns whether instances of the given type have the given special
+    method, which is looked up in the type and its bases (unlike 'hasattr',
+    not in its metaclass)"""
+    return any(special in vars(cls) for cls in type_.__mro__)
+
+
 def placeholder(type_):
     """Returns the EmptyVal instance for the given type"""
     typetuple = type_ if isinstance(type_, tuple) else (type_,)
@@ -64,7 +71,7 @@ class EmptyVal(object):
             for type_ in self._typetuple:
                 prop = getattr(type_, attr_name, None)
                 if prop is None:
-                    if '__getattr__' in type_.__dict__:
+                    if implements(type_, '__getattr__'):
                         attrs_found.append(None)
                 else:
                     attrs_found.append(prop)
@@ -98,7 +105,7 @@ class EmptyVal(object):
         if self._typetuple is any:
             return self
         for type_ in self._typetuple:
-            if type_.__dict__.get("__call__", False):
+            if implements(type_, '__call__'):
                 return placeholder(any)
         raise self._exc('NotCallable')
 
@@ -111,7 +118,7 @@ class EmptyVal(object):
                 is_coll = issubclass(type_, normalize.coll.Collection)
                 if is_coll:
                     coll_types.append(type_.itemtype)
-                elif '__getitem__' in type_.__dict__:
+                elif implements(type_, '__getitem__'):
                     coll_types.append(any)
 
             if not coll_types:
-- 
2.43.0


From a219b31641c596394cb4c01e5ca46f9595f5c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 51/64] fix: empty placeholders allow class attributes which
 are None (C26)

---
 normalize/empty.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index 262b6d8..96c5f5e 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -4,6 +4,7 @@ import normalize
 
 
 EMPTY_VALS = dict()
+_MISSING = object()
 
 
 def implements(type_, special):
@@ -69,8 +70,8 @@ class EmptyVal(object):
         if attr_name not in self._attrs:
             attrs_found = []
             for type_ in self._typetuple:
-                prop = getattr(type_, attr_name, None)
-                if prop is None:
+                prop = getattr(type_, attr_name, _MISSING)
+                if prop is _MISSING:
                     if implements(type_, '__getattr__'):
                         attrs_found.append(None)
                 else:
-- 
2.43.0


From b3e27251710bc0d16617a2ba2e80f818e2f9c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:41 +0000
Subject: [PATCH 52/64] fix: empty placeholders can be copied (C26)

---
 normalize/empty.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/normalize/empty.py b/normalize/empty.py
index 96c5f5e..68057ca 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -133,6 +133,12 @@ class EmptyVal(object):
     def __iter__(self):
         return iter(())
 
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo):
+        return self
+
     def __bool__(self):
         return False
 
-- 
2.43.0


From 9fcd4f034e7a71c55f2bddb98931ebdcc77dc5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 53/64] fix: datetimes with microseconds can be read without
 dateutil (C27)

---
 normalize/property/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/property/types.py b/normalize/property/types.py
index 3d81890..2959b12 100644
--- a/normalize/property/types.py
+++ b/normalize/property/types.py
@@ -33,6 +33,8 @@ except ImportError:
         14: "%Y%m%d%H:%MZ",
         16: "%Y%m%d%H:%M:%S",
         17: "%Y%m%d%H:%M:%SZ",
+        23: "%Y%m%d%H:%M:%S.%f",
+        24: "%Y%m%d%H:%M:%S.%fZ",
     }
 
     def parse_datetime(not_a_datetime):
-- 
2.43.0


From d4f692b3a2b95688f06ee921fd9fd0384be18fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 54/64] fix: subtypes of subtypes of records and abstract
 classes can be made (C27)

---
 normalize/subtype.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/subtype.py b/normalize/subtype.py
index e09240e..889a196 100644
--- a/normalize/subtype.py
+++ b/normalize/subtype.py
@@ -45,7 +45,8 @@ class subtype(type):
         # for classes with a custom metaclass, we'll need to whip up a new
         # metaclass for them, then construct that.
         if not issubclass(typcls, type(of)):
-            typcls = type(
+            # ... unless it was made already: ``of`` is such a subtype
+            typcls = type(of) if issubclass(type(of), typcls) else type(
                 type(of).__name__ + typcls.__name__.capitalize(),
                 (typcls, type(of)), {})
             return typcls(name, of, where, coerce)
-- 
2.43.0


From 4562f9fb92e3bd6cc2a0c3f1621a1cf416a2ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:44 +0000
Subject: [PATCH 55/64] fix: properties named like the empty form of another
 are not hidden (C24)

---
 normalize/record/meta.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 398ba4e..df61085 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -18,6 +18,7 @@
 from __future__ import absolute_import
 
 import normalize.exc as exc
+from normalize.property import EmptyAuxProp
 from normalize.property import Property
 
 
@@ -80,7 +81,14 @@ class RecordMeta(type):
                     good_props.append(prop)
             return tuple(good_props)
 
-        attrs.update(aux_props)
+        # what was declared with the name of an auxiliary one is not hidden
+        for aux_name, aux_prop in aux_props.items():
+            if aux_name not in properties:
+                attrs.setdefault(aux_name, aux_prop)
+        for propname, prop in properties.items():
+            if any(isinstance(vars(cls).get(propname), EmptyAuxProp)
+                   for base in bases for cls in base.__mro__):
+                attrs.setdefault(propname, prop)
         attrs['primary_key'] = coerce_prop_list('primary_key')
         attrs['properties'] = properties
         attrs['_sorted_properties'] = sorted(
-- 
2.43.0


From bfb3fa9e04e85af4d9b2b6ec34554c96b5ec4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 56/64] fix: property types are mixed the same way whatever was
 declared before (C05)

---
 normalize/property/coll.py |   5 +-
 normalize/property/meta.py | 171 ++++++++++++++++++++++---------------
 2 files changed, 101 insertions(+), 75 deletions(-)

diff --git a/normalize/property/coll.py b/normalize/property/coll.py
index 17ab598..84c1821 100644
--- a/normalize/property/coll.py
+++ b/normalize/property/coll.py
@@ -61,10 +61,7 @@ class CollectionProperty(Property):
 
 
 class SafeCollectionProperty(CollectionProperty, SafeProperty):
-    def __set__(self, obj, value):
-        super(SafeCollectionProperty, self).__set__(
-            obj, self.type_safe_value(value),
-        )
+    pass
 
 
 class ListProperty(CollectionProperty):
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 2d31153..caf4b75 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -22,6 +22,10 @@ import normalize.exc as exc
 
 PROPERTY_TYPES = dict()
 
+# keys in PROPERTY_TYPES of those which were not declared, but mixed together
+# for some property.
+MADE_TYPES = set()
+
 # Duck typing kwargs... for picking the right Property sub-class to instantiate
 # based on the kwargs used in the Property() constructor
 DUCKWARGS = defaultdict(set)
@@ -52,6 +56,8 @@ def has(selfie, self, args, kwargs):
     """
     if args:
         raise exc.PositionalArgumentsProhibited()
+    init_kwargs = kwargs
+    kwargs = _with_defaults(self, kwargs)
     extra_traits = set(kwargs.pop('traits', tuple()))
 
     safe_unless_ro = self.__safe_unless_ro__ or any(
@@ -110,7 +116,30 @@ def has(selfie, self, args, kwargs):
             base=type(self).__name__,
         )
 
-    return super(selfie, self).__new__(property_type)
+    # the type is decided; don't let the types 'self' is derived from choose
+    # again without the arguments
+    prop = object.__new__(property_type)
+    if not isinstance(prop, self):
+        # a type for all of the traits need not derive from this one, in which
+        # case python doesn't do this.
+        prop.__init__(**init_kwargs)
+    return prop
+
+
+def _with_defaults(self, kwargs):
+    """Returns kwargs with the default arguments of all of the property types
+    whose traits are asked for, be it by 'self' or by name."""
+    wanted = None
+    defaults = {}
+    while wanted != set(self.traits).union(kwargs.get('traits', ())):
+        wanted = set(self.traits).union(kwargs.get('traits', ()))
+        for traits in sorted(PROPERTY_TYPES, key=len):
+            if wanted.issuperset(traits):
+                defaults.update(
+                    vars(PROPERTY_TYPES[traits]).get('default_kwargs', {})
+                )
+        kwargs = dict(defaults, **kwargs)
+    return kwargs
 
 
 def _merge_camel_case_names(base_name, new_name):
@@ -142,14 +171,16 @@ def create_property_type_from_traits(trait_set):
     the composition order will be the same every time.
     """
     wanted_traits = set(trait_set)
-    stock_types = dict(
-        (k, v) for k, v in list(PROPERTY_TYPES.items()) if
-        set(k).issubset(wanted_traits)
+    # don't mix types which were themselves made here: the result may not
+    # depend on which other properties happen to have been declared before
+    stock_types = list(
+        v for k, v in PROPERTY_TYPES.items() if
+        k not in MADE_TYPES and set(k).issubset(wanted_traits)
     )
 
     traits_available = set()
-    for key in list(stock_types.keys()):
-        traits_available.update(key)
+    for stock_type in stock_types:
+        traits_available.update(stock_type.traits)
 
     missing_traits = wanted_traits - traits_available
     if missing_traits:
@@ -158,68 +189,65 @@ def create_property_type_from_traits(trait_set):
             missing=repr(tuple(sorted(missing_traits))),
         )
 
-    made_types = []
-    # mix together property types, until we have made the right type.
-    while trait_set not in PROPERTY_TYPES:
-
-        # be somewhat deterministic: always start with types which provide the
-        # 'first' trait on the list
-        start_with = set(
-            k for k in list(stock_types.keys()) if k and k[0] == trait_set[0]
+    # prefer types which already combine several of the traits, leaving out
+    # those which do not go together with what is there
+    mix_in = []
+    bases = ()
+    for stock_type in sorted(
+        stock_types, key=lambda x: (-len(x.traits), x.traits),
+    ):
+        if stock_type not in bases:
+            with_it = _mixing_order(mix_in + [stock_type])
+            if with_it:
+                mix_in.append(stock_type)
+                bases = with_it
+
+    if wanted_traits.difference(*[x.traits for x in mix_in]):
+        raise exc.PropertyTypeMixinFailure(
+            traitlist=repr(trait_set),
+            newtypelist=", ".join(
+                "%r (%s)" % (x.traits, x.__name__) for x in mix_in
+            )
         )
 
-        # prefer extending already composed trait sets, by only adding to the
-        # longest ones
-        longest = max(len(x) for x in start_with)
-        made_type = False
-
-        for base in sorted(start_with):
-            if len(base) != longest:
-                continue
-
-            # pick a type to join on which reduces the short-fall as much as
-            # possible.
-            shortfall = len(wanted_traits) - len(base)
-            mix_in = None
-            for other in sorted(stock_types.keys()):
-                # skip mixes that will fail; this means that the type on the
-                # list is a trait subset of 'base'
-                mixed_traits = tuple(sorted(set(base) | set(other)))
-                if mixed_traits in PROPERTY_TYPES:
-                    continue
-
-                this_shortfall = len(wanted_traits - (set(base) | set(other)))
-                if this_shortfall < shortfall:
-                    mix_in = other
-                    mixed_in_product = mixed_traits
-                    shortfall = this_shortfall
-                    if shortfall == 0:
-                        break
-
-            if mix_in:
-                base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[mix_in]
-                new_name = _merge_camel_case_names(
-                    base_type.__name__, other_type.__name__,
-                )
-                attrs = {}
-                if "ro" in mixed_in_product:
-                    # nothing mixed in may make a read-only property writable
-                    ro_type = PROPERTY_TYPES[("ro",)]
-                    attrs['__set__'] = ro_type.__set__
-                    attrs['__delete__'] = ro_type.__delete__
-                new_type = type(new_name, (base_type, other_type), attrs)
-                stock_types[mixed_in_product] = new_type
-                made_types.append(new_type)
-                made_type = True
-
-        if not made_type:
-            raise exc.PropertyTypeMixinFailure(
-                traitlist=repr(trait_set),
-                newtypelist=", ".join(
-                    "%r (%s)" % (x.traits, x.__name__) for x in made_types
-                )
-            )
+    mix_in.sort(key=bases.index)
+    new_name = mix_in[0].__name__
+    for other in mix_in[1:]:
+        new_name = _merge_camel_case_names(new_name, other.__name__)
+
+    attrs = {}
+    if "ro" in wanted_traits:
+        # nothing mixed in may make a read-only property writable
+        ro_type = PROPERTY_TYPES[("ro",)]
+        attrs['__set__'] = ro_type.__set__
+        attrs['__delete__'] = ro_type.__delete__
+    type(new_name, bases, attrs)
+    MADE_TYPES.add(trait_set)
+
+
+def _mixing_order(types):
+    """Returns the types and everything they derive from in an order in which
+    they can be derived from, or None if there is no such order.  Types which
+    supply default arguments, and those derived from them, go as early as
+    possible, so that the defaults reach the types which take them; otherwise
+    it's the order of the traits.
+    """
+    todo = list(list(x.__mro__[:-1]) for x in types)
+    ordered = []
+    while todo:
+        heads = list(
+            x[0] for x in todo if not any(x[0] in y[1:] for y in todo)
+        )
+        if not heads:
+            return None
+        first = min(heads, key=lambda x: (
+            not any(vars(y).get('default_kwargs') for y in x.__mro__),
+            getattr(x, "traits", ()),
+        ))
+        ordered.append(first)
+        todo = list(x[1:] if x[0] is first else x for x in todo)
+        todo = list(x for x in todo if x)
+    return tuple(ordered)
 
 
 class MetaProperty(type):
@@ -230,12 +258,10 @@ class MetaProperty(type):
     def __new__(mcs, name, bases, attrs):
         """This __new__ method is called when new property trait combinations
         are created."""
-        selfie = [None, attrs.get('default_kwargs', {})]
+        selfie = [None]
 
         def _has(self, *args, **kwargs):
-            mixed_kwargs = dict(selfie[1])
-            mixed_kwargs.update(kwargs)
-            return has(selfie[0], self, args, mixed_kwargs)
+            return has(selfie[0], self, args, kwargs)
 
         attrs['__new__'] = _has
         duckwargs = set()
@@ -254,7 +280,10 @@ class MetaProperty(type):
             if hasattr(base, "all_duckwargs"):
                 all_duckwargs.update(base.all_duckwargs)
         traits = tuple(sorted(traits))
-        if traits in PROPERTY_TYPES:
+        if traits in MADE_TYPES:
+            # an explicit declaration takes the place of the one made up
+            MADE_TYPES.discard(traits)
+        elif traits in PROPERTY_TYPES:
             raise exc.PropertyTypeClash(
                 newtype=name,
                 oldtype=PROPERTY_TYPES[traits].__name__,
-- 
2.43.0


From c8d126ac52b590157cf0e21c4829b327d82a1fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:05 +0000
Subject: [PATCH 57/64] fix: extending a ListCollection with itself ends

---
 normalize/coll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index d829c19..337d65f 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -363,7 +363,8 @@ class ListCollection(KeyedCollection):
         """Adds new values to the end of the collection, coercing items.
         """
         # perhaps: self[len(self):len(self)] = iterable
-        self._values.extend(self.coerce_value(item) for item in iterable)
+        # coerced first: the collection may be extended with its own items
+        self._values.extend([self.coerce_value(item) for item in iterable])
 
     def count(self, value):
         return self._values.count(value)
-- 
2.43.0


From 90675d9cdbbee97fb7bb36905bc15b51cd4d6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:41 +0000
Subject: [PATCH 58/64] fix: FieldSelector.post creates what is missing where
 an unset slot reads as None

---
 normalize/selector.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 11275b3..5608070 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -28,6 +28,8 @@ from normalize.coll import ListCollection
 from normalize.exc import FieldSelectorAttributeError
 from normalize.exc import FieldSelectorException
 from normalize.exc import FieldSelectorKeyError
+from normalize.exc import ReadOnlyAttributeError
+from normalize.record import Record
 
 
 def _try_index(instance, selector):
@@ -51,6 +53,16 @@ def _members(instance):
     return instance
 
 
+def _has_slot(instance, name):
+    return isinstance(instance, Record) and name in type(instance).properties
+
+
+def _is_unset(instance, name):
+    """Whether 'name' is a property which isn't set, even though reading it
+    may give something.  (A lazy one is set by reading it.)"""
+    return _has_slot(instance, name) and name not in instance.__dict__
+
+
 def _replace_members(instance, value):
     _members(instance)
     if isinstance(instance, DictCollection):
@@ -323,7 +335,9 @@ class FieldSelector(object):
                     record[selector] = item
                     record = record[selector]
             else:
-                if not hasattr(record, selector):
+                if not hasattr(record, selector) or _is_unset(
+                    record, selector
+                ):
                     try:
                         prop = type(record).properties[selector]
                     except (AttributeError, KeyError):
-- 
2.43.0


From 80a0889cb76e06604d610aa67c0a56fba57b2c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:41 +0000
Subject: [PATCH 59/64] fix: deleting an unset slot which can be read is a
 field selector error

---
 normalize/selector.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 5608070..5ca8963 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -418,7 +418,13 @@ class FieldSelector(object):
                 raise FieldSelectorKeyError(key=to_delete)
         else:
             if hasattr(record, to_delete):
-                delattr(record, to_delete)
+                try:
+                    delattr(record, to_delete)
+                except ReadOnlyAttributeError:
+                    raise
+                except AttributeError:
+                    # it can be read, but it isn't set
+                    raise FieldSelectorAttributeError(name=to_delete)
 
     def __eq__(self, other):
         """Implemented; field selectors must have identical paths to compare
-- 
2.43.0


From ca8aa8a3e434745911bba45f8f029f0a15e1e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:41 +0000
Subject: [PATCH 60/64] fix: MultiFieldSelector.get keeps slots set to None,
 and leaves unset ones unset

---
 normalize/selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 5ca8963..3260d74 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -945,7 +945,9 @@ class MultiFieldSelector(object):
                 kwargs = dict()
                 for head, tail in self.heads.items():
                     val = getattr(obj, head, None)
-                    if val is not None:
+                    if _is_unset(obj, head):
+                        continue
+                    if val is not None or _has_slot(obj, head):
                         kwargs[head] = self._get(val, tail)
                 return ctor(**kwargs)
 
-- 
2.43.0


From 9c2e2bf1e9c5a86cf25dead4cd38a333cbcca5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:41 +0000
Subject: [PATCH 61/64] fix: MultiFieldSelector.patch removes what is not set
 in the source

---
 normalize/selector.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 3260d74..fb72a2c 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -1001,7 +1001,13 @@ class MultiFieldSelector(object):
         for mfs_fs in self:
             for fs in _expand_wildcards(mfs_fs, source, target):
                 try:
-                    fs_val.append((fs, fs.get(source)))
+                    val = fs.get(source)
+                    if fs.selectors and _is_unset(
+                        fs[:-1].get(source), fs.selectors[-1]
+                    ):
+                        missing.append(fs)
+                    else:
+                        fs_val.append((fs, val))
                 except FieldSelectorException:
                     missing.append(fs)
 
-- 
2.43.0


From 66db5d12a3da4c1d01533e1dd7d2f33e3fd1d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:41 +0000
Subject: [PATCH 62/64] fix: an unset slot with a default of no type of its own
 is empty

---
 normalize/property/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 70e8ab0..5aca8a6 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -457,7 +457,9 @@ class V1Property(SafeProperty):
             self.empty_attr = None
 
     def slot_is_empty(self, obj):
-        if self.v1_upgraded:
+        if self.v1_upgraded and (
+            not self.valuetype or isinstance(self.v1_none, self.valuetype)
+        ):
             return False
         return super(V1Property, self).slot_is_empty(obj)
 
-- 
2.43.0


From 617748c91df9a370547a782ad147198547aaa449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:41 +0000
Subject: [PATCH 63/64] fix: visiting a record leaves out slots which are not
 set

---
 normalize/visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 332f10b..2dfd9a6 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -251,6 +251,9 @@ class VisitorPattern(object):
                     return value[prop.name]
             else:
                 def propget(prop):
+                    if prop.slot_is_empty(value):
+                        # what reading it gives isn't of its type
+                        raise AttributeError(prop.fullname)
                     return prop.__get__(value)
         else:
             propget = None
-- 
2.43.0


From 5b60d41dbb9bd46c1ae471c94ab5e39f65327cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:10 +0000
Subject: [PATCH 64/64] fix: with duck_type, slots set on one side only are
 differences

---
 normalize/diff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 3a63e81..b53e7e8 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -428,8 +428,9 @@ def compare_record_iter(a, b, fs_a=None, fs_b=None, options=None):
         prop_fs_b = fs_b + [propname]
 
         if comparable and (
-            types_match or options.duck_type or (
-                options.ignore_empty_slots and one_side_nothing
+            types_match or (
+                options.ignore_empty_slots if one_side_nothing else
+                options.duck_type
             )
         ):
             if one_side_nothing:
-- 
2.43.0

