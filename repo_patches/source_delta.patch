From c3f0a63102a5c3d2e19c8078c53f63548909016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 01/43] fix: multiclans.is_right_regular uses the right-regular
 flag

It wrote and returned the flag for regular.
---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index ff0539b..83bf8b0 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -609,8 +609,8 @@ def is_right_regular(mclan, _checked=True) -> bool:
         right_set = rel.get_right_set()
         right_regular = all(
             _relations.is_right_functional(rel) and right_set == rel.get_right_set() for rel in itr)
-        mclan.cache_regular(CacheStatus.from_bool(right_regular))
-    return mclan.cached_is_regular
+        mclan.cache_right_regular(CacheStatus.from_bool(right_regular))
+    return mclan.cached_is_right_regular
 
 
 def is_reflexive(mclan, _checked=True) -> bool:
-- 
2.43.0


From 87578baffb0dd6e8a80fe66d10ddffd71b31bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 02/43] fix: clans.from_set is right-regular only with at most
 one value

Two or more distinct values give relations with different right sets.
---
 algebraixlib/algebras/clans.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index c273c6c..bffdd38 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -702,7 +702,9 @@ def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
         direct_load=True)
     clan.cache_clan(CacheStatus.IS)
     clan.cache_functional(CacheStatus.IS).cache_right_functional(CacheStatus.IS)
-    clan.cache_regular(CacheStatus.IS).cache_right_regular(CacheStatus.IS)
+    clan.cache_regular(CacheStatus.IS)
+    # Relations with different right components have different right sets.
+    clan.cache_right_regular(CacheStatus.from_bool(clan.cardinality <= 1))
     return clan
 
 
-- 
2.43.0


From 35e376aeb860d8f27ca72c600abbaa35f1a69238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 03/43] fix: cross-(right-)functional union of clans guesses no
 false flags

The relations that are not (right-)functional may be the ones that are removed.
---
 algebraixlib/algebras/clans.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index bffdd38..e5a6368 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -163,8 +163,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if clan1.cached_is_not_right_functional or clan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -232,8 +230,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if clan1.cached_is_not_functional or clan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 54831c24ae2e1428f2e5c571df399cf861f69c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 04/43] fix: cross-(right-)functional union of multiclans
 guesses no false flags

The relations that are not (right-)functional may be the ones that are removed.
---
 algebraixlib/algebras/multiclans.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 83bf8b0..b4b1c3c 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -162,8 +162,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if mclan1.cached_is_not_right_functional or mclan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -192,8 +190,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if multiclan1.cached_is_not_functional or multiclan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 1fcad08be6f21f571fcf8824670f38c57c1d8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 05/43] fix: clans.lhs_cross_functional_union guesses no false
 flags

The relations of rhs that are not right-functional may not be in the result, and the result may
well be regular.
---
 algebraixlib/algebras/clans.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index e5a6368..257b4ea 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -196,10 +196,6 @@ class Algebra:
             result.cache_clan(CacheStatus.IS)
             if lhs.cached_is_functional:
                 result.cache_functional(CacheStatus.IS)
-            if lhs.cached_is_not_right_functional or rhs.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
-            if not rhs.is_empty and not lhs_rest.is_empty:
-                result.cache_regular(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 22065f73b9f599610f7539dd8a3b418c64f35949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 06/43] fix: the power set of the empty set is regular and
 right-regular

---
 algebraixlib/algebras/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index 48dd7af..be20334 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -569,8 +569,9 @@ def power_set(set_: _mo.Set):
             result.cache_absolute(set_.cached_absolute)
             result.cache_functional(set_.cached_functional)
             result.cache_right_functional(set_.cached_right_functional)
-            result.cache_regular(CacheStatus.IS_NOT)
-            result.cache_right_regular(CacheStatus.IS_NOT)
+            if not set_.is_empty:
+                result.cache_regular(CacheStatus.IS_NOT)
+                result.cache_right_regular(CacheStatus.IS_NOT)
     return result
 
 
-- 
2.43.0


From 74e9f099df7de63a67f5f27da2830b678aa5eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 07/43] fix: empty sets and multisets are known to be
 right-regular

is_right_regular of an empty clan or multiclan raised StopIteration.
---
 algebraixlib/mathobjects/multiset.py | 1 +
 algebraixlib/mathobjects/set.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index a68bfe1..0740e1f 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -66,6 +66,7 @@ def _init_cache_empty() -> int:
     flags.f.functional = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     # These three are defined for multiclans (multisets of relations), where they inherit the
     # definition from (non-multi) relations.
     flags.f.reflexive = CacheStatus.IS
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index 95507fb..be3d57f 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -93,6 +93,7 @@ def _init_cache_empty() -> int:
     flags.f.relation = CacheStatus.IS
     flags.f.functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.reflexive = CacheStatus.IS
     flags.f.symmetric = CacheStatus.IS
-- 
2.43.0


From adbb5d09128c583fb40509beea82fed5c8e593f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 08/43] fix: multiclan[left] doesn't return rights with the
 flags of an empty multiset

The result was filled after its construction and claimed to be an (empty) multiclan.
---
 algebraixlib/mathobjects/multiset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index 0740e1f..efddd9a 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -305,12 +305,12 @@ class Multiset(MathObject):
     def _getitem_multiclan(self, left):
         """Return a multiset with the rights of all the couplets in all relations that have a
         left of ``left``."""
-        result = Multiset()
+        result = _collections.Counter()
         for rel in self:
             rel_result = rel[left]
             if rel_result is not _ud.Undef():
-                result.data.update(rel_result)
-        return result
+                result.update(rel_result)
+        return Multiset(result, direct_load=True)
 
     def _getitem_multirelation(self, left):
         """Return a multiset with the rights of all the couplets that have a left of ``left``."""
-- 
2.43.0


From b98fa8c371a23983dc04d75d493cf15b6227f498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 09/43] fix: multiclans.get_rights_for_left accepts an empty
 multiclan

It raised StopIteration.
---
 algebraixlib/algebras/multiclans.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index b4b1c3c..8b8caa7 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -496,6 +496,9 @@ def get_rights_for_left(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True)
             return _undef.make_or_raise_undef(2)
         if left is _undef.Undef():
             return _mo.Set()
+    if mclan.is_empty:
+        # The right multiset of an empty multiset is the empty multiset
+        return mclan
     clan_itr = iter(mclan)
     rights = _sets.multify(_relations.get_rights_for_left(next(clan_itr), left, _checked=False))
     for rel in clan_itr:
-- 
2.43.0


From 21adfff0d54f567b5949c3c1b85bda642cb63864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 10/43] fix: multiclan list generators use an int offset, not
 the limit, as offset

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 8b8caa7..0bf7213 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -697,7 +697,7 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(offset, _mo.Atom) and isinstance(offset.value, int):
             pass
         elif isinstance(offset, int):
-            offset = _mo.Atom(limit)
+            offset = _mo.Atom(offset)
         elif offset is _undef.Undef():
             return _undef.make_or_raise_undef(2)
         else:
-- 
2.43.0


From 70b2a0707373ca0beea61d50dd44e43feee2ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 11/43] fix: extension.unary_extend tests its argument, not the
 type set, for Undef()

---
 algebraixlib/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/extension.py b/algebraixlib/extension.py
index 73729ac..4365216 100644
--- a/algebraixlib/extension.py
+++ b/algebraixlib/extension.py
@@ -111,7 +111,7 @@ def unary_extend(set_: 'P( M )', op, _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
     else:
         assert _sets.is_member_or_undef(set_)
-        if set is _undef.Undef():
+        if set_ is _undef.Undef():
             return _undef.make_or_raise_undef(2)
 
     def _get_values(_set):
-- 
2.43.0


From f43c7c0fdf6e916a4d2158d452f70d6a4ac7caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 12/43] fix: properties.is_(right_)regular of sets of clans use
 existing methods

They raised AttributeError: no math object has a get_lefts() or get_rights().
---
 algebraixlib/algebras/properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 271e2d4..1a667ba 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -332,9 +332,9 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_regular(elem1):
             mo.cache_regular(CacheStatus.IS_NOT)
             return False
-        elem1_lefts = elem1.get_lefts()
+        elem1_lefts = elem1.get_left_set()
         regular = all(
-            is_regular(elem, _checked=False) and elem.get_lefts() == elem1_lefts
+            is_regular(elem, _checked=False) and elem.get_left_set() == elem1_lefts
             for elem in mo_iter)
         mo.cache_regular(CacheStatus.from_bool(regular))
         return mo.cached_is_regular
@@ -380,9 +380,9 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_right_regular(elem1):
             mo.cache_right_regular(CacheStatus.IS_NOT)
             return False
-        elem1_rights = elem1.get_rights()
+        elem1_rights = elem1.get_right_set()
         right_regular = all(
-            is_right_regular(elem, _checked=False) and elem.get_rights() == elem1_rights
+            is_right_regular(elem, _checked=False) and elem.get_right_set() == elem1_rights
             for elem in mo_iter)
         mo.cache_right_regular(CacheStatus.from_bool(right_regular))
         return mo.cached_is_right_regular
-- 
2.43.0


From 0c1a199ef810c7cd6eb9ff79868330d71bb017d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 13/43] fix: partition components don't inherit that their
 parent is not a (multi)clan

A component of a set that is not a clan may well be a clan.
---
 algebraixlib/partition.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/partition.py b/algebraixlib/partition.py
index 5499ef8..2fb7b75 100644
--- a/algebraixlib/partition.py
+++ b/algebraixlib/partition.py
@@ -18,6 +18,8 @@ import collections as _collections
 
 import algebraixlib.mathobjects as _mo
 
+from .cache_status import CacheStatus
+
 
 def _create_partition_dict_from_set(set_, class_invariant_func):
     r"""Return the data of a partition defined by ``class_invariant_func`` on ``set_``.
@@ -70,6 +72,12 @@ def _create_partition_dict_from_multiset(mset, class_invariant_func):
     return partition_dict
 
 
+def _inherited_status(status: CacheStatus) -> CacheStatus:
+    """Return what ``status``, the (multi)clan status of a set or multiset, says about its subsets:
+    only a positive status is inherited."""
+    return CacheStatus.IS if status == CacheStatus.IS else CacheStatus.UNKNOWN
+
+
 def partition(set_or_mset, class_invariant_func):
     r"""Return ``set_or_mset`` partitioned according to ``class_invariant_func``.
 
@@ -88,13 +96,13 @@ def partition(set_or_mset, class_invariant_func):
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         # Create the resulting Set of Sets from the partition components.
         return _mo.Set((_mo.Set(components, direct_load=True)
-            .cache_clan(set_or_mset.cached_clan)
+            .cache_clan(_inherited_status(set_or_mset.cached_clan))
             for components in partition_dict.values()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         # Create the resulting Set of Multisets from the partition components.
         return _mo.Set((_mo.Multiset(counter, direct_load=True)
-            .cache_multiclan(set_or_mset.cached_multiclan)
+            .cache_multiclan(_inherited_status(set_or_mset.cached_multiclan))
             for counter in partition_dict.values()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
@@ -119,12 +127,13 @@ def make_labeled_partition(set_or_mset, class_invariant_func):
     if set_or_mset.is_set:
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Set(components, direct_load=True)
-                .cache_clan(set_or_mset.cached_clan), direct_load=True)
+                .cache_clan(_inherited_status(set_or_mset.cached_clan)), direct_load=True)
             for label, components in partition_dict.items()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Multiset(counter, direct_load=True)
-                .cache_multiclan(set_or_mset.cached_multiclan), direct_load=True)
+                .cache_multiclan(_inherited_status(set_or_mset.cached_multiclan)),
+                direct_load=True)
             for label, counter in partition_dict.items()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
-- 
2.43.0


From 36134ffd2935c648bc7ea6eaebe9d018b4d32eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 14/43] fix: import_csv claims no irregularity of data where
 all rows lack the same cells

---
 algebraixlib/import_export/csv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 5017bc9..261e9f8 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -153,7 +153,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             yield key, val
 
     _util.get_left_cached.left_cache = {}
-    import_csv.regular = True  # Set to false if any row is missing one or more values
+    import_csv.regular = True  # Set to false if any two rows have values in different columns
 
     assert ((index_column is not None) & (has_dup_rows is False)) or (index_column is None)
 
@@ -163,9 +163,12 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         reader = _csv.DictReader(csv_file, fieldnames=columns)
 
         _index = 0
+        first_row_columns = None
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if import_csv.regular and len(row) != len(filtered_row):
+            if first_row_columns is None:
+                first_row_columns = set(filtered_row)
+            elif set(filtered_row) != first_row_columns:
                 import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
-- 
2.43.0


From 43645d0a8d896669a866435c327a74d312a2fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 15/43] fix: mojson encodes nested tuples and lists so that
 they are decoded as such

An inner tuple was decoded as a list.
---
 algebraixlib/import_export/mojson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index 5d7c7cb..c43b9b5 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -40,11 +40,11 @@ def encode(obj):
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-        return {'__cls__': 'builtin.list', '__val__': obj}
+        return {'__cls__': 'builtin.list', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, range):
         return {'__cls__': 'builtin.range', '__val__': [obj.start, obj.stop, obj.step]}
     if isinstance(obj, tuple):
-        return {'__cls__': 'builtin.tuple', '__val__': obj}
+        return {'__cls__': 'builtin.tuple', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, _mo.Atom):
         return {'__cls__': 'Atom', '__val__': encode(obj.value)}
     if isinstance(obj, _mo.Couplet):
-- 
2.43.0


From 99db401ba68eb330d340c8923e3fddfa73434a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 16/43] fix: xml_to_str closes the file it opens

---
 algebraixlib/import_export/xml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 89d6f37..5b20728 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -118,11 +118,12 @@ def xml_to_str(xml_file_or_filepath, indent_text='   ', truncate=True, max_line_
         that contains an ellipsis.) Ignored if 0 or if ``pre_len`` is 0.
     """
 
-    if not hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
-        xml_file_or_filepath = open(xml_file_or_filepath, encoding='utf-8')
-
     from xml.dom.minidom import parse
-    xml_data = parse(xml_file_or_filepath)
+    if hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
+        xml_data = parse(xml_file_or_filepath)
+    else:
+        with open(xml_file_or_filepath, encoding='utf-8') as file:
+            xml_data = parse(file)
     xml_str = xml_data.toprettyxml(indent_text)
 
     # Remove duplicate whitespace
-- 
2.43.0


From 3bd4589607f9c930518402c024e6b0492f47eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 17/43] fix: a structure is a subset of a union with a member
 that is its superset

Only Cartesian products and unions were compared with the members of a union.
---
 algebraixlib/structure.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index f4a482f..c39d90f 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -161,6 +161,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(elem) for elem in other.data)
         return type(other) == GenesisSetA or type(other) == GenesisSetM
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -215,6 +217,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(elem) for elem in other.data)
         return type(other) == GenesisSetM
 
     def get_powerset_level(self, other):
@@ -262,6 +266,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(elem) for elem in other.data)
         return type(other) == GenesisSetN
 
     def get_powerset_level(self, other):
@@ -549,6 +555,8 @@ class PowerSet(Structure):
             return True
         elif isinstance(other, PowerSet):
             return self._base_set.is_subset(other._base_set)
+        elif isinstance(other, Union):
+            return any(self.is_subset(elem) for elem in other.data)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
-- 
2.43.0


From 6a066281108d76c2eaed0be11bdf517e0b3f278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 18/43] fix: no member of a union structure is a subset of
 another member

Only one of the existing members was removed when a superset of several of them was added.
---
 algebraixlib/structure.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index c39d90f..8eacfa7 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -420,15 +420,11 @@ class Union(Structure):
             for existing_element in writeable_union:
                 if new_element.is_subset(existing_element):
                     # To be added element is subset of existing element: nothing to add.
-                    break
-                elif existing_element.is_subset(new_element):
-                    # To be added element is (real) superset of existing element: exchange them.
-                    writeable_union.remove(existing_element)
-                    writeable_union.add(new_element)
-                    break
-            else:
-                # To be added element is neither subset nor superset of existing: add it.
-                writeable_union.add(new_element)
+                    return
+            # To be added element replaces all existing elements of which it is a (real) superset.
+            writeable_union.difference_update([existing_element
+                for existing_element in writeable_union if existing_element.is_subset(new_element)])
+            writeable_union.add(new_element)
 
         writeable_union = set()
         for new_structure in iterable:
-- 
2.43.0


From a94a2b999af3a1233f7338b71b65ab762dff5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 19/43] fix: structures and one-member unions of them compare
 and hash alike

Union([A]) == A was true, but A == Union([A]) was false, and their hashes were different.
---
 algebraixlib/structure.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 8eacfa7..15913cb 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -117,6 +117,8 @@ class Structure(object):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == Structure
 
     # ----------------------------------------------------------------------------------------------
@@ -181,6 +183,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetA
 
     # ----------------------------------------------------------------------------------------------
@@ -237,6 +241,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetM
 
     # ----------------------------------------------------------------------------------------------
@@ -286,6 +292,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetN
 
     # ----------------------------------------------------------------------------------------------
@@ -379,6 +387,8 @@ class CartesianProduct(Structure):
         assert isinstance(other, Structure)
         if isinstance(other, CartesianProduct):
             return (self.left == other.left) and (self.right == other.right)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return False
 
     # ----------------------------------------------------------------------------------------------
@@ -508,6 +518,9 @@ class Union(Structure):
         """Return a hash based on the member values. (It must match the implementation of `is_same`,
         to which `Structure.__eq__` redirects equality comparisons.) Is always cached.
         """
+        if len(self.data) == 1:
+            # Is equal to its one element (see is_same).
+            return hash(_misc.get_single_iter_elem(self.data))
         return _misc.get_hash(_misc.get_full_class_name(self), self.data)
 
     def __repr__(self):
@@ -582,6 +595,8 @@ class PowerSet(Structure):
         assert isinstance(other, Structure)
         if isinstance(other, PowerSet):
             return self._base_set == other._base_set
+        if isinstance(other, Union):
+            return other.is_same(self)
         return False
 
     # ----------------------------------------------------------------------------------------------
-- 
2.43.0


From 5f90bbfdbea8e207606a61730c2f4d191e027788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 20/43] fix: multiclan list generators honor the limit within a
 single relation

When offset and limit cut the multiplicity of the same relation, the offset was ignored.
---
 algebraixlib/algebras/multiclans.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 0bf7213..040c573 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -759,6 +759,9 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
         end_index = len(counter_list)
 
     # If needed, adjust the multiplicities of the first and last tuple in the selected range.
+    if start_index == end_index:
+        # A single tuple is cut on both sides.
+        last_multiple -= counter_list[start_index][1] - first_multiple
     if start_index < len(counter_list) and counter_list[start_index][1] != first_multiple:
         counter_list[start_index] = (counter_list[start_index][0], first_multiple)
     if end_index < len(counter_list) and counter_list[end_index][1] != last_multiple:
-- 
2.43.0


From 6b51ff13829c30d65adee97fcd48ba1129e972e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 21/43] fix: short LaTeX of a set doesn't depend on the
 iteration order of the set

---
 algebraixlib/util/latexprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 1d3bcb8..219fa85 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -202,7 +202,7 @@ def set_to_latex(set_: _mo.Set, short: bool=False, _depth: int=0):
 
         if short and set_.cardinality > Config.short_set_len + 1:
             is_couplet_list = [elem.is_couplet
-                for elem in _itertools.islice(set_, Config.short_set_len)]
+                for elem in _itertools.islice(sorted(set_.data), Config.short_set_len)]
         else:
             is_couplet_list = [elem.is_couplet for elem in set_]
         parenthesize_couplets = any(is_couplet_list) and not all(is_couplet_list)
-- 
2.43.0


From 1ddb5fce8843c44158e3ce84097cf11792471539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 22/43] fix: html.create_simple_web_page works and escapes its
 contents

The template contained a placeholder that was not filled (KeyError).
---
 algebraixlib/util/html.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 4200cd9..92543bc 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -210,10 +210,11 @@ def create_simple_web_page(mathobj: _mo.MathObject) -> str:
         <h2>Input:</h2>
         <div id="dataAlgebraArea">{data_algebra_in!s}</div>
         <h2>Output:</h2>
-        <div id="latexArea">$$\(\require{color}\){latex_out}$$</div>
+        <div id="latexArea">$$\(\require{{color}}\){latex_out}$$</div>
     </body></html>
     """
     web_out = web_template.format(
-        data_algebra_in=mathobj, latex_out=_latexprinter.math_object_to_latex(mathobj))
+        data_algebra_in=as_html_handle_basic_parameter(mathobj),
+        latex_out=_html.escape(_latexprinter.math_object_to_latex(mathobj)))
     print(web_out)
     return web_out
-- 
2.43.0


From 706a8af7bbf5f844d382911f7ae4b57670dd08f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 23/43] fix: RDF JSON export escapes quotes and backslashes

---
 algebraixlib/import_export/rdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index f8a8904..bf42377 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -15,6 +15,7 @@
 # If not, see <http://www.gnu.org/licenses/>.
 # --------------------------------------------------------------------------------------------------
 import abc as _abc
+import json as _json
 import rdflib as _rdflib
 
 import algebraixlib.algebras.clans as _clans
@@ -319,7 +320,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._write_atom(right)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
-            self._file.write('"' + str(atom.value) + '"')
+            self._file.write(_json.dumps(str(atom.value), ensure_ascii=False))
 
     assert _clans.is_absolute_member(table)
     sorted_lefts = sorted(lefts)
-- 
2.43.0


From 9ab9d30a2ece2d944b77063172fbe3292a9df002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 24/43] fix: multiclans.superstrict keeps the multiplicities of
 its first operand

Relations that are not in the second operand were in the result with a multiplicity of 0.
---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 040c573..c8a9872 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -295,7 +295,7 @@ class Algebra:
         result = _extension.binary_multi_extend(multiclan1, multiclan2, _functools.partial(
             _sets.superstrict, _checked=False), _checked=False)
         for elem, multi in result.data.items():
-            result.data[elem] = multiclan2.data[elem]
+            result.data[elem] = multiclan1.data[elem]
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             if multiclan1.cached_is_functional:
-- 
2.43.0


From e2be5fe35c87b70164b8457db4b15cf0a4c7f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 25/43] fix: make the order of atoms of different types
 transitive

Atoms of one type were ordered by value and atoms of different types by
representation: Atom(9) < Atom(10) < Atom(5.5) < Atom(9). The representation
of a set (its sorted elements) depended on the order of its elements.
---
 algebraixlib/mathobjects/atom.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/mathobjects/atom.py b/algebraixlib/mathobjects/atom.py
index f83ad58..3afc2f5 100755
--- a/algebraixlib/mathobjects/atom.py
+++ b/algebraixlib/mathobjects/atom.py
@@ -174,12 +174,15 @@ class Atom(MathObject):
         if not isinstance(other, MathObject):
             return NotImplemented
         if other.is_atom:
+            if self.type != other.type:
+                # Keep the values of each type together. (Mixing an order by value within a type
+                # with an order by representation across types would not be transitive.)
+                return (other.type.__name__, repr(self.value)) < \
+                    (self.type.__name__, repr(other.value))
             try:
-                if self.type == other.type:
-                    return self.value < other.value
+                return self.value < other.value
             except TypeError:
-                pass
-            return repr(self.value) < repr(other.value)
+                return repr(self.value) < repr(other.value)
         else:
             return super()._less_than(other)
 
-- 
2.43.0


From 35e282ca05df8741bdb8dfa05c082a4a446e01ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 26/43] fix: Multiset of a dict whose keys convert to equal
 objects lost multiplicities

---
 algebraixlib/mathobjects/multiset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index efddd9a..2559b74 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -117,7 +117,7 @@ class Multiset(MathObject):
                 else:
                     # only asserting in non direct mode, assumption is direct load has good data.
                     assert isinstance(elements[key], int) and elements[key] > 0
-                    self._data[auto_convert(key)] = elements[key]
+                    self._data[auto_convert(key)] += elements[key]
         elif isinstance(elements, str):
             # Strings are iterable, but we treat them as a single value in this case.
             self._data = _collections.Counter({auto_convert(elements): 1})
-- 
2.43.0


From 76ac501b4e142a2c82b63a6b6f7a18824172c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 27/43] fix: triple_match failed for an empty string as the
 value to match

---
 algebraixlib/util/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/rdf.py b/algebraixlib/util/rdf.py
index a37f8c5..99f07c0 100644
--- a/algebraixlib/util/rdf.py
+++ b/algebraixlib/util/rdf.py
@@ -122,7 +122,7 @@ def triple_match(rdf_graph: 'PP(A x M)', subject=None, predicate=None, object_=N
 
     def add(rdf_left, value):
         if value is not None:
-            if isinstance(value, str) and value[0] in '?$':
+            if isinstance(value, str) and value.startswith(('?', '$')):
                 projection[rdf_left] = value
             else:
                 pattern[rdf_left] = value
-- 
2.43.0


From 6b3ac00a02e28b2912e8deed1c746b12ec81f8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 28/43] fix: open_webpage_from_html_str closes its file when
 the text cannot be encoded

---
 algebraixlib/util/miscellaneous.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index 544d598..1f07751 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -78,9 +78,8 @@ def open_webpage_from_html_str(html: str):
 
     import tempfile
     import webbrowser
-    webpage = tempfile.NamedTemporaryFile(delete=False, suffix=".html")
-    webpage.write(bytes(html, 'utf-8'))
-    webpage.close()
+    with tempfile.NamedTemporaryFile(delete=False, suffix=".html") as webpage:
+        webpage.write(bytes(html, 'utf-8'))
     webbrowser.open_new(webpage.name)
 
 
-- 
2.43.0


From 8f3a8b90c7b3098edde3634d70f579efaf4f30f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 29/43] fix: membership tests look at the elements (the ground
 set of an empty set is part of every ground set)

---
 algebraixlib/algebras/clans.py      | 13 +++++++------
 algebraixlib/algebras/multiclans.py | 14 ++++++++------
 algebraixlib/algebras/relations.py  | 13 +++++++------
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 257b4ea..0c186e8 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -392,11 +392,11 @@ def is_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is a :term:`clan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result of
-        this operation is cached.
+    .. note:: This function may look at all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_clan == CacheStatus.UNKNOWN:
-        is_clan = obj.get_ground_set().is_subset(get_ground_set())
+        is_clan = obj.is_set and all(_relations.is_member(elem) for elem in obj)
         obj.cache_clan(CacheStatus.from_bool(is_clan))
     return obj.cached_is_clan
 
@@ -416,8 +416,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is an :term:`absolute clan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may look at all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_is_not_clan:
         # If known to not be a clan, it's also not an absolute clan. No further caching.
@@ -425,7 +425,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     # The `or` clause in this `if` statement is a safety thing. It should never hit.
     if obj.cached_absolute == CacheStatus.UNKNOWN or obj.cached_clan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute clan.
-        is_absolute_clan = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_clan = obj.is_set and all(
+            _relations.is_absolute_member(elem) for elem in obj)
         if obj.cached_clan == CacheStatus.UNKNOWN:
             if is_absolute_clan:
                 # If it is an absolute clan, it is also a clan.
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index c8a9872..1cf400a 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -365,11 +365,12 @@ def is_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is a :term:`multiclan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result of
-        this operation is cached.
+    .. note:: This function may look at all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_multiclan == CacheStatus.UNKNOWN:
-        is_multiclan = obj.get_ground_set().is_subset(get_ground_set())
+        is_multiclan = obj.is_multiset and all(
+            _relations.is_member(elem) for elem in obj.data)
         obj.cache_multiclan(CacheStatus.from_bool(is_multiclan))
     return obj.cached_is_multiclan
 
@@ -389,8 +390,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is an :term:`absolute clan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may look at all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_is_not_multiclan:
         # If known to not be a multiclan, it's also not an absolute multiclan. No further caching.
@@ -400,7 +401,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
             or obj.cached_multiclan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # multiclan.
-        is_absolute_mclan = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_mclan = obj.is_multiset and all(
+            _relations.is_absolute_member(elem) for elem in obj.data)
         if obj.cached_multiclan == CacheStatus.UNKNOWN:
             if is_absolute_mclan:
                 # If it is an absolute multiclan, it is also a multiclan.
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index bf0181b..c61c89b 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -192,11 +192,11 @@ def is_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is a :term:`relation`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may look at all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_relation == CacheStatus.UNKNOWN:
-        is_relation = obj.get_ground_set().is_subset(get_ground_set())
+        is_relation = obj.is_set and all(_couplets.is_member(elem) for elem in obj)
         obj.cache_relation(CacheStatus.from_bool(is_relation))
     return obj.cached_is_relation
 
@@ -216,8 +216,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is an :term:`absolute relation`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may look at all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_is_not_relation:
         # If known to not be a relation, it's also not an absolute relation. No further caching.
@@ -227,7 +227,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
             or obj.cached_relation == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # relation.
-        is_absolute_relation = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_relation = obj.is_set and all(
+            _couplets.is_absolute_member(elem) for elem in obj)
         if obj.cached_relation == CacheStatus.UNKNOWN:
             if is_absolute_relation:
                 # If it is an absolute relation, it is also a relation.
-- 
2.43.0


From 1823dd0dd957f9451211bc1bae42cd02868b9abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 30/43] fix: ground set of couplets with an empty set on the
 right

---
 algebraixlib/structure.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 15913cb..163323e 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -323,9 +323,7 @@ class CartesianProduct(Structure):
         :param right: The ground set of the :term:`right component` of a couplet. Must be an
             instance of `Structure`.
         """
-        right_is_struct = isinstance(right, Structure)
-        right_not_struct = type(right) != Structure
-        assert right_is_struct and right_not_struct
+        assert isinstance(left, Structure) and isinstance(right, Structure)
         self._left = left
         self._right = right
 
-- 
2.43.0


From 2973917d1a87f3af3af461a90555f594b93ae24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 31/43] fix: a structure is a subset of a union and a union of
 M exactly where its parts are

---
 algebraixlib/structure.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 163323e..c316edc 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -344,8 +344,7 @@ class CartesianProduct(Structure):
 
         -   A `CartesianProduct` and both left and right components must be subsets of left and
             right components of ``other``, or
-        -   A :class:`~Union` that contains an instance of `CartesianProduct` where both left and
-            right component are subsets of left and right components of ``other``, or
+        -   A :class:`~Union` that contains a structure of which ``self`` is a subset, or
         -   `GenesisSetM` (everything in our system is a subset of :math:`M`).
 
         :param other: Must be an instance of `Structure`.
@@ -361,10 +360,7 @@ class CartesianProduct(Structure):
         elif isinstance(other, CartesianProduct):
             return is_subset_of_cart_prod(other)
         elif isinstance(other, Union):
-            for union_elem in other.data:
-                if isinstance(union_elem, CartesianProduct):
-                    if is_subset_of_cart_prod(union_elem):
-                        return True
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -458,9 +454,6 @@ class Union(Structure):
         -   If ``other`` is a union, we compare against each element of it.
         -   If ``other`` is not a union, we compare directly against it.
 
-        Is also ``True`` if ``other`` is `GenesisSetM` (everything in our system is an element of
-        :math:`M`).
-
         :param other: Must be an instance of `Structure`.
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
@@ -472,9 +465,7 @@ class Union(Structure):
                     return True  # If elem is a subset of any element of union, return True.
             return False  # Only return False if elem is not a subset of any element of union.
 
-        if isinstance(other, GenesisSetM):
-            return True
-        elif isinstance(other, Union):
+        if isinstance(other, Union):
             for element in self.data:
                 if not is_subset_of_union(element, other.data):
                     return False  # If any element is not a subset of other, return False.
-- 
2.43.0


From 188087a6f748dba9075842cf3ab43f30ac28a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 32/43] fix: import_graph from a file object without a format

guess_format raises TypeError for a file object, so that the documented default
(Turtle) was never used.
---
 algebraixlib/import_export/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index bf42377..47aa667 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -49,7 +49,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
     if rdf_format is None:
         try:
             rdf_format = _rdflib.util.guess_format(graph_file_or_filepath) or 'turtle'
-        except AttributeError:
+        except (AttributeError, TypeError):  # Not a path.
             rdf_format = 'turtle'
 
     graph = _rdflib.Graph()
-- 
2.43.0


From c60d70670903fd8840cc085946b5f2056fe0bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 33/43] fix: import_graph converts blank nodes to IRIs, as
 documented

Graph.skolemize() returns a new graph; its result was ignored.
---
 algebraixlib/import_export/rdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 47aa667..9ed85c4 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -54,8 +54,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
 
     graph = _rdflib.Graph()
     graph.parse(source=graph_file_or_filepath, format=rdf_format)
-    graph.skolemize()
-    return _convert_graph_to_mathobjects(graph)
+    return _convert_graph_to_mathobjects(graph.skolemize())
 
 
 class _ExportTable(_abc.ABC):
-- 
2.43.0


From 2247b68e6e5775110546d3d12660579e500a8129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 34/43] fix: export_table of an empty table

It raised StopIteration instead of writing a table without rows.
---
 algebraixlib/import_export/rdf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 9ed85c4..78895c7 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -194,10 +194,11 @@ class _ExportTable(_abc.ABC):
 
     def _write_body(self):
         self._body_start()
-        relation_itr = iter(self._clan)
-        self._write_row(next(relation_itr))
-        for relation in relation_itr:
-            self._row_between_relations()
+        is_first = True
+        for relation in self._clan:
+            if not is_first:
+                self._row_between_relations()
+            is_first = False
             self._write_row(relation)
         self._body_end()
 
-- 
2.43.0


From 280a6d6cf60861d68c776c0fe3b7b4a23955fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 35/43] fix: export_table wrote invalid JSON for rows without a
 value in the first column

The separator was written even when no item preceded it.
---
 algebraixlib/import_export/rdf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 78895c7..1b32d79 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -206,15 +206,17 @@ class _ExportTable(_abc.ABC):
         self._row_start()
         lefts_itr = iter(self._ordered_lefts)
         left = next(lefts_itr)
-        self._write_item_wrapper(relation, left, False)
+        has_items = self._write_item_wrapper(relation, left, False)
         for left in lefts_itr:
             self._item_between_couplets()
-            self._write_item_wrapper(relation, left, True)
+            has_items = self._write_item_wrapper(relation, left, has_items) or has_items
         self._row_end()
 
     def _write_item_wrapper(self, relation: 'P(A x A)', left: '( A )', prefix_separator: bool):
+        """Write the item with the left component ``left``. Return whether ``relation`` has one."""
         right = _relations.get_right(relation, left)
         self._write_item(left, right, prefix_separator)
+        return right is not _ud.Undef()
 
 
 def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format: str='csv'):
-- 
2.43.0


From bcf1f4b99ad14db1c7c1cb9d7c4f13e2fa4e51bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 36/43] fix: export_csv of an empty (multi)clan without
 ordered_lefts raised StopIteration

---
 algebraixlib/import_export/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 261e9f8..3d6cffd 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -60,8 +60,8 @@ def export_csv(absolute_clan_or_multiclan, file_or_path, ordered_lefts=None, sor
         return False
 
     if ordered_lefts is None:
-        # Since this clan is regular, get first relation to acquire left set.
-        rel = next(iter(absolute_clan_or_multiclan))
+        # Since this clan is regular, get first relation (if any) to acquire left set.
+        rel = next(iter(absolute_clan_or_multiclan), _mo.Set())
         # left_set is sorted to guarantee consistent iterations
         ordered_lefts = sorted([left.value for left in rel.get_left_set()])
 
-- 
2.43.0


From f465e078c865773a09aef8653ffac82d9de7ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 37/43] fix: import_csv took a clan for irregular whose index
 column fills blank cells of a column

---
 algebraixlib/import_export/csv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 3d6cffd..c36dd6f 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -166,16 +166,16 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         first_row_columns = None
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if first_row_columns is None:
-                first_row_columns = set(filtered_row)
-            elif set(filtered_row) != first_row_columns:
-                import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
                     filtered_row[key] = val(filtered_row[key])
             if index_column is not None:
                 filtered_row[index_column] = _index
                 _index += 1
+            if first_row_columns is None:
+                first_row_columns = set(filtered_row)
+            elif set(filtered_row) != first_row_columns:
+                import_csv.regular = False
             yield _mo.Set(
                 (_mo.Couplet(left=_util.get_left_cached(left), right=_mo.Atom(right),
                 direct_load=True) for left, right in filtered_row.items()), direct_load=True)\
-- 
2.43.0


From 5a04edc001d8cbd67aeb74a5a9625916717fec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 38/43] fix: import_json reads UTF-8, not the encoding of the
 locale

---
 algebraixlib/import_export/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/json.py b/algebraixlib/import_export/json.py
index ec77a51..27fff88 100755
--- a/algebraixlib/import_export/json.py
+++ b/algebraixlib/import_export/json.py
@@ -49,5 +49,5 @@ def import_json(json_file_or_filepath) -> 'P( A x M )':
     if hasattr(json_file_or_filepath, "readlines"):  # support StringIO
         return _import_json(json_file_or_filepath)
     else:
-        with open(json_file_or_filepath) as file:
+        with open(json_file_or_filepath, encoding='utf-8') as file:
             return _import_json(file)
-- 
2.43.0


From 5296d00fd655785d37386c8b746767d671cacbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 39/43] fix: as_html_handle_data_algebra put every character of
 a string on its own line

---
 algebraixlib/util/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 92543bc..6b8126d 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -150,7 +150,7 @@ def as_html_handle_data_algebra(mathobj):
     if isinstance(mathobj, _mo.MathObject):
         # print this one math object
         return "$$" + _html.escape(_latexprinter.math_object_to_latex(mathobj)) + "$$"
-    elif isinstance(mathobj, _collections.Iterable):
+    elif isinstance(mathobj, _collections.Iterable) and not isinstance(mathobj, str):
         temp = ""
         for elem in mathobj:
             if isinstance(elem, _mo.MathObject):
-- 
2.43.0


From ca4fa0c2a63d5228c6dd1ada48bbfb562dbf501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 40/43] fix: short LaTeX of multisets

An ellipsis was printed although no element was left out (when only the
multiplicities exceeded the limit), and the documented number of left-out elements was missing.
---
 algebraixlib/util/latexprinter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 219fa85..7a63212 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -265,11 +265,12 @@ def mset_to_latex(mset: _mo.Multiset, short: bool=False, _depth: int=0):
 
     result = _Tokens.left_bracket_dyn + start
 
-    if short and mset.cardinality > Config.short_set_len + 1:
+    if short and len(mset.data) > Config.short_set_len + 1:
         result += separator.join(
             [latex_mset(elem_key, multiple) for elem_key, multiple in _itertools.islice(
                 sorted(mset.data.items()), Config.short_set_len)])
         result += separator + _Tokens.ellipsis
+        result += '({0})'.format(len(mset.data) - Config.short_set_len)
     else:
         result += separator.join([latex_mset(elem_key, multiple)
                                   for elem_key, multiple in sorted(mset.data.items())])
-- 
2.43.0


From 37fc77f2f523f0c54247ea3c98760b580e815bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 41/43] fix: exported files are UTF-8, not in the encoding of
 the locale

import_csv reads UTF-8 (ignoring errors): exported data was lost or could not be
written when the locale used another encoding.
---
 algebraixlib/util/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index 1f07751..57b42e7 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -148,7 +148,7 @@ def write_to_file_or_path(file_or_path, data_functor):
     """
     if isinstance(file_or_path, str):
         # 'with' syntax handles close no matter what.
-        with open(file_or_path, "w+", newline='') as out_file:
+        with open(file_or_path, "w+", newline='', encoding='utf-8') as out_file:
             data_functor(out_file)
     else:
         # Assume 'file_or_path' is a writer-type object.
-- 
2.43.0


From c1bfea47c9708f3054b5ef38626c1ba0c8aaa24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 42/43] fix: slices of an ordered multiclan with a limit of
 zero are empty

A limit of zero raised an AssertionError or gave relations with multiplicity zero.
---
 algebraixlib/algebras/multiclans.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 1cf400a..d9375f4 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -731,6 +731,9 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
     if start_offset == 0 and end_offset >= float('inf'):
         # Effectively no offset and limit. Return sorted list as-is.
         return counter_list
+    if end_offset <= start_offset:
+        # Nothing is requested.
+        return []
 
     # Find the list indices of the first and last tuple (representing a relation and a multiplicity)
     # and the resulting multiplicities in these first and last tuples (which may be different from
-- 
2.43.0


From 004028fb26211eb3c2a9e0cbd56b0f0aeee735dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 43/43] fix: accept comparison functions for ordered slices
 that return a plain truth value

The documentation shows such a comparison; it raised an AttributeError.
---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index d9375f4..307b94c 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -839,7 +839,7 @@ def order_slice_to_listgen(mclan: 'P(P(M x M) x N)', less_than_f,
         def __lt__(self, other) -> bool:
             assert isinstance(other, Key)
             result = self._lt(self._rel, other._rel)
-            return result.value
+            return result.value if isinstance(result, _mo.Atom) else result
 
     def make_key(multiset_tuple) -> Key:
         result = Key(relation=multiset_tuple[0], less_than=less_than_f)
-- 
2.43.0

