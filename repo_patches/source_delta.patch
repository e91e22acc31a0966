From a81960c85ee7ea2e0f35d05fa1c241d5475b639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 01/64] fix: do not treat containers of different kinds as the
 same type

A set, a frozenset, a list, an iterator... holding the same element types had the same hash, so that all but
one of them were dropped from the type hint of the structure that contained them.
---
 .../data_type_tree/generic_type/dict_data_type_tree.py          | 2 +-
 .../data_type_tree/generic_type/generic_data_type_tree.py       | 2 +-
 .../data_type_tree/generic_type/mapping_data_type_tree.py       | 2 +-
 .../data_type_tree/generic_type/pandas_series_data_type_tree.py | 2 +-
 .../data_type_tree/generic_type/sequence_data_type_tree.py      | 2 +-
 .../data_type_tree/generic_type/set_data_type_tree.py           | 2 +-
 .../data_type_tree/generic_type/tuple_data_type_tree.py         | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b8f19af..b16fbe5 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -366,7 +366,7 @@ class DictDataTypeTree(MappingDataTypeTree):
         hashes: List[object] = []
         for name, child in self.children.items():
             hashes.append(("typed_dict", name, child._get_hash()))
-        return frozenset(hashes)
+        return "typed_dict", frozenset(hashes)
 
     @staticmethod
     def compare_multiple_typed_dicts_based_trees(*trees: "DictDataTypeTree") -> DictMetadataComparison:
diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index dcd9132..ed43131 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -82,4 +82,4 @@ class GenericDataTypeTree(DataTypeTree):
         hashes: List[object] = []
         for child in self:
             hashes.append(child._get_hash())
-        return tuple(hashes)
+        return type(self), tuple(hashes)
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 73b46aa..ab3a84f 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -127,7 +127,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         hashes: List[object] = []
         for name, child in self.children.items():
             hashes.append(("mapping", hash(type(name)), child._get_hash()))
-        return frozenset(hashes)
+        return type(self), frozenset(hashes)
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
index 6c3f858..48157e2 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
@@ -33,7 +33,7 @@ class PandasSeriesDataTypeTree(GenericDataTypeTree):
         hashes: Set[object] = set()
         for child in self:
             hashes.add(child._get_hash())
-        return frozenset(hashes)
+        return type(self), frozenset(hashes)
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
index 3141c18..bbb791b 100644
--- a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
@@ -25,7 +25,7 @@ class SequenceDataTypeTree(GenericDataTypeTree):
         hashes: List[object] = []
         for child in self:
             hashes.append(child._get_hash())
-        return frozenset(hashes)
+        return type(self), frozenset(hashes)
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index 5159989..c96dcfb 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -38,7 +38,7 @@ class SetDataTypeTree(GenericDataTypeTree):
         hashes: Set[object] = set()
         for child in self:
             hashes.add(child._get_hash())
-        return frozenset(hashes)
+        return type(self), self.holding_type is frozenset, frozenset(hashes)
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
index 650423a..55ad543 100644
--- a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
@@ -52,4 +52,4 @@ class TupleDataTypeTree(SequenceDataTypeTree):
             hashes: List[object] = []
             for child in self:
                 hashes.append(child._get_hash())
-            return tuple(hashes)
+            return type(self), tuple(hashes)
-- 
2.43.0


From e6113ab656fb2bb0991470c6a6062bf43e5f4c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 02/64] fix: only merge TypedDicts whose common keys hold the
 same inner types

The merge compared the types of the values superficially: for [{'a': [1]}, {'a': ['s']}] the types of all
lists but the last one were lost.
---
 .../generic_type/dict_data_type_tree.py          | 16 ++++++++++++++++
 .../generic_type/set_and_sequence_operations.py  |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b16fbe5..5f29515 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -382,6 +382,22 @@ class DictDataTypeTree(MappingDataTypeTree):
         ]
         return DictMetadata.compare_multiple_dicts(*dicts_metadata)
 
+    @staticmethod
+    def have_all_common_children_the_same_type(*trees: "DataTypeTree") -> bool:
+        """Check that the values associated with the same key have the same type, inner structures included.
+
+        The exception are `int` and `float`, which can be represented by `float`.
+        """
+        children_per_key: Dict[Hashable, Set[DataTypeTree]] = defaultdict(set)
+        for tree in trees:
+            if isinstance(tree, DictDataTypeTree) and tree.dict_metadata.is_typed_dict:
+                for key, child in tree.children.items():
+                    children_per_key[key].add(child)
+        return all(
+            len(children) == 1 or {child.holding_type for child in children} == {int, float}
+            for children in children_per_key.values()
+        )
+
     @classmethod
     def from_multiple_dict_data_type_trees(cls, *trees: "DictDataTypeTree") -> "Self":
         """
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 2e027bf..bf84175 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -118,6 +118,8 @@ class SetAndSequenceOperations:
             return tuple(children)
         if not comparison.all_corresponding_value_types_are_same_type:
             return tuple(children)
+        if not DictDataTypeTree.have_all_common_children_the_same_type(*children):
+            return tuple(children)
 
         dict_data_type_trees: List[DictDataTypeTree] = []
         if allow_repeated_children:
-- 
2.43.0


From 8d0fe91bd997e34503cdeb3988723e961afd5a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 03/64] fix: distinguish TypedDicts whose keys differ in being
 required

[[{'a': 1, 'b': 2}], [{'a': 1}, {'a': 1, 'b': 2}]] lost the structure whose key `b` is not required.
---
 .../data_type_tree/generic_type/dict_data_type_tree.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 5f29515..17e3ff9 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -365,7 +365,8 @@ class DictDataTypeTree(MappingDataTypeTree):
             return super()._get_hash()
         hashes: List[object] = []
         for name, child in self.children.items():
-            hashes.append(("typed_dict", name, child._get_hash()))
+            required = name not in self.dict_metadata.key_info or self.dict_metadata.key_info[name].required
+            hashes.append(("typed_dict", name, required, child._get_hash()))
         return "typed_dict", frozenset(hashes)
 
     @staticmethod
-- 
2.43.0


From b31221a89d05c17973f0aa72a480ebc04280977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 04/64] fix: merge TypedDicts holding int and float values in
 any order

[{'a': 1}, {'a': 1.0}] was merged while [{'a': 1.0}, {'a': 1}] was not.
---
 .../data_type_tree/generic_type/dict_data_type_tree.py     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 17e3ff9..b1bb395 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -103,6 +103,8 @@ class DictMetadata:
         for dct in dicts_metadata:
             for key, value in dct._data.items():
                 value_type = type(value)
+                if value_type == int and float in value_types[key]:
+                    continue
                 if value_type == float and int in value_types[key]:
                     value_types[key].remove(int)
                 value_types[key].add(type(value))
@@ -410,7 +412,10 @@ class DictDataTypeTree(MappingDataTypeTree):
         """
         merged_dict: Dict[Hashable, object] = {}
         for d in (tree.data for tree in trees):
-            merged_dict.update(d)
+            for key, value in d.items():
+                if type(value) is int and type(merged_dict.get(key)) is float:
+                    continue  # `float` already represents both of them
+                merged_dict[key] = value
 
         def check_same(trees: Iterable["DictDataTypeTree"], *, param: str) -> Any:
             if not trees:
-- 
2.43.0


From 05a1196e5bb4cb081ed359b8546a2116d8a72b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 05/64] fix: do not merge a TypedDict with itself

The children of the only TypedDict found within a container were instantiated twice, which exhausted
any iterator held by the dictionary: [{'a': iter([1])}] was described as Iterator[Any].
---
 .../generic_type/set_and_sequence_operations.py              | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index bf84175..415a8b8 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -113,6 +113,11 @@ class SetAndSequenceOperations:
         a new child that contains a merged dictionary with the merged metadata is created. Then, all those TypedDict
         based children are replaced within `children` by the newly created merged child.
         """
+        n_typed_dicts = sum(
+            isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict for child in children
+        )
+        if n_typed_dicts < 2:
+            return tuple(children)
         comparison = DictDataTypeTree.compare_multiple_typed_dicts_based_trees(*children)
         if comparison.percentage_similarity < merge_if_similarity_above:
             return tuple(children)
-- 
2.43.0


From f5061afdb20a997dd18cd45253a6216c07966425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 06/64] fix: generate the same output for the same data in
 every process

Children were stored in sets whose order depends on memory addresses and on the hash seed, which changed the
order of the type aliases, the keys of merged TypedDicts and the outcome of the validations.
---
 .../generic_type/set_and_sequence_operations.py    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 415a8b8..fd7edb1 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -38,9 +38,9 @@ class SetAndSequenceOperations:
         If `allow_repeated_children` is set to True, all children will be returned even if they are repeated.
         """
         if allow_repeated_children:
-            children: Union[Set[DataTypeTree], List[DataTypeTree]] = []
+            children: Union[Dict[DataTypeTree, None], List[DataTypeTree]] = []
         else:
-            children = set()
+            children = {}  # Used as a set that keeps the order, so that the output is always the same
         names_added: Dict[DataTypeTree, str] = {}  # Used to generate new and unique cnames in a quicker way.
 
         child: DataTypeTree
@@ -74,15 +74,15 @@ class SetAndSequenceOperations:
                 names_added[child] = child.name
             else:
                 # List and Set cases
-                children = cast("Set[DataTypeTree]", children)
+                children = cast("Dict[DataTypeTree, None]", children)
                 if child in children and isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
                     self._update_existing_typed_dict_child_from_another_equal_child(children, child)
                 if child not in children:
-                    children.add(child)
+                    children[child] = None
                     names_added[child] = name
 
         return self._merge_similar_typed_dicts(
-            children,
+            tuple(children),
             merge_if_similarity_above=self.data_type_tree.strategies.merge_different_typed_dicts_if_similarity_above,
             allow_repeated_children=allow_repeated_children,
         )
@@ -138,12 +138,12 @@ class SetAndSequenceOperations:
                     children[idx] = merged_child
             return tuple(children)
         else:
-            children = cast("Set[DataTypeTree]", children)
+            children = list(children)
             for child in children.copy():
                 if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
                     children.remove(child)
                     dict_data_type_trees.append(child)
 
             merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
-            children.add(merged_child) if isinstance(children, list) else children.add(merged_child)
+            children.append(merged_child)
             return tuple(children)
-- 
2.43.0


From c134d5947f24667be9b95969d6904c31d2c83896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 07/64] fix: keep all the classes found within a container

[int, str] was described as List[Type[int]].
---
 .../simple_data_type_tree/type_data_type_tree.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
index 896a04b..81deb0f 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
@@ -1,5 +1,5 @@
 import builtins
-from typing import Type
+from typing import Hashable, Type
 
 from typing_extensions import override
 
@@ -17,6 +17,10 @@ class TypeDataTypeTree(SimpleDataTypeTree):
             return f"{self.name}: TypeAlias = Type[{self.data.__name__}]"
         return f'{self.name}: TypeAlias = Type["{self.data.__name__}"]'
 
+    @override
+    def _get_hash(self) -> Hashable:
+        return "type", self.data
+
     def is_builtin_class(self) -> bool:
         try:
             cls = getattr(builtins, self.data.__name__)
-- 
2.43.0


From 045f1b1bd6a9bdf969d7412aa790db57bacf2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 08/64] fix: use the numpy scalar type to describe and to
 compare arrays

Arrays of different types were considered equal, and types such as `np.<U1` or `np.object` do not exist.
---
 .../simple_data_type_tree/numpy_data_type_tree.py   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
index 633682c..9d10027 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
@@ -1,3 +1,5 @@
+from typing import Hashable
+
 import numpy as np
 from numpy.typing import NDArray
 from typing_extensions import override
@@ -12,4 +14,13 @@ class NumpyDataTypeTree(SimpleDataTypeTree):
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("NDArray").add("numpy").add("TypeAlias")
-        return f'{self.name}: TypeAlias = "NDArray[np.{self.data.dtype}]"'
+        return f'{self.name}: TypeAlias = "NDArray[np.{self._scalar_type}]"'
+
+    @override
+    def _get_hash(self) -> Hashable:
+        return "ndarray", self._scalar_type
+
+    @property
+    def _scalar_type(self) -> str:
+        """Name, within `numpy`, of the type of the elements."""
+        return self.data.dtype.type.__name__
-- 
2.43.0


From a05f14aaff29a0ff7e56d3987c10c5b821b65246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:13 +0000
Subject: [PATCH 09/64] fix: distinguish DataFrames whose columns have
 different types

[df1, df2] lost the types of df2 when both had columns with the same name.
---
 .../generic_type/pandas_data_frame_data_type_tree.py         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index c8df6e1..59e4ee3 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -162,10 +162,11 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         return children
 
     @override
-    def _get_hash(self) -> str:
+    def _get_hash(self) -> Hashable:
         if self.strategies.pandas_strategies == "Do not type hint columns":
             return "pd.DataFrame"
-        return str(self.data.columns)
+        children_hashes = tuple((repr(key), child._get_hash()) for key, child in self.children.items())
+        return "pd.DataFrame", str(list(self.data.columns)), children_hashes
 
     @override
     def _get_str_top_node(self) -> str:
-- 
2.43.0


From 62d14614a1fb4e63214e6940cfd8ee1faf65547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 10/64] fix: honour the "Do not type hint columns" strategy

The columns of the DataFrames were always described.
---
 .../generic_type/pandas_data_frame_data_type_tree.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 59e4ee3..b647fba 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -141,6 +141,9 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
     @override
     def _instantiate_children(self, data: pd.DataFrame) -> Mapping[Hashable, DataTypeTree]:
         children: Dict[Hashable, DataTypeTree] = {}
+        if self.strategies.pandas_strategies == "Do not type hint columns":
+            return {}
+
         if not self.are_all_columns_literal_compatible:
             return {}
 
-- 
2.43.0


From 6cb354bbe4ba58a405ff1edcce122c3823223311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 11/64] fix: do not recurse endlessly on DataFrames with
 repeated columns

---
 .../generic_type/pandas_data_frame_data_type_tree.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index b647fba..43e9b6a 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -151,6 +151,10 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         if all(isinstance(column, tuple) and len(column) == 1 for column in self.data.columns):
             return {}
 
+        # Same case: Selecting a repeated column returns another data frame with the same columns
+        if not data.columns.is_unique:
+            return {}
+
         columns_processed: Set[Union[bool, str, int]] = set()
         for column in data.columns:
             if not self.can_be_accessed_multilevel:  # Here all columns will  be Hashable
-- 
2.43.0


From 87f6e11ea9af502c1032d23ea8fd29f73ad92fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 12/64] fix: take into account the values that follow a None
 key

{None: 1, "a": "x"} was described as Dict[..., Any].
---
 .../data_type_tree/generic_type/mapping_data_type_tree.py   | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index ab3a84f..6603bd6 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -136,8 +136,4 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
     @override
     def __next__(self) -> DataTypeTree:
-        key = next(self._iterator, None)
-        if key is not None:
-            return self.children[key]
-        else:
-            raise StopIteration
+        return self.children[next(self._iterator)]
-- 
2.43.0


From f6e1870d942b39493cedbf7b7f373bd41a712a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 13/64] fix: do not refer to undefined names as the type of the
 keys

Keys such as None or the ones from custom classes led to code that could not be imported.
---
 .../generic_type/generic_data_type_tree.py            | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index ed43131..b969a31 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -1,3 +1,4 @@
+import builtins
 from abc import abstractmethod
 from typing import (
     Hashable,
@@ -59,7 +60,7 @@ class GenericDataTypeTree(DataTypeTree):
         """
         child_types: List[str] = []
         if iterable:
-            child_types = [type(element).__name__ for element in iterable]
+            child_types = [self._get_type_name(element) for element in iterable]
         else:
             for child in self:
                 if not child.permission_to_be_created_as_type_alias:
@@ -77,6 +78,14 @@ class GenericDataTypeTree(DataTypeTree):
             return tuple(sorted(child_types_set))
         return tuple(child_types)
 
+    @staticmethod
+    def _get_type_name(element: object) -> str:
+        """Get a name for the type of the element that can be resolved from the generated code."""
+        if element is None:
+            return "None"
+        name = type(element).__name__
+        return name if getattr(builtins, name, None) is type(element) else f'"{name}"'
+
     @override
     def _get_hash(self) -> Hashable:
         hashes: List[object] = []
-- 
2.43.0


From db79f45e69c34faea01fde524ff93b1b91471a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:46 +0000
Subject: [PATCH 14/64] fix: escape the keys of the TypedDicts declared with
 the functional syntax

Keys holding quotes, backslashes or line breaks led to invalid code or to different keys.
---
 .../data_type_tree/generic_type/dict_data_type_tree.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b1bb395..43887f3 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -311,7 +311,7 @@ class DictDataTypeTree(MappingDataTypeTree):
             template = f"""{name} = TypedDict(
 {TAB}"{name}",
 {TAB}{{
-{TAB}{TAB}"{{key}}": {{value}},
+{TAB}{TAB}{{key}}: {{value}},
 {TAB}}},
 )"""
             idx_to_repeat = -3
@@ -330,7 +330,7 @@ class DictDataTypeTree(MappingDataTypeTree):
             if key.startswith(self.hidden_keys_prefix):  # Do not add artificially created keys
                 continue
             if self.dict_metadata.is_functional_syntax:
-                modified_line += lines[idx_to_repeat].format(key=key, value=value) + "\n"
+                modified_line += lines[idx_to_repeat].format(key=self._quote(key), value=value) + "\n"
             else:
                 docstring = key_docstrings.get(key, "")
                 modified_line += lines[idx_to_repeat].format(key=key, value=value, optional_key_docstring=docstring)
@@ -345,6 +345,12 @@ class DictDataTypeTree(MappingDataTypeTree):
             lines = self._insert_class_docstring(lines, key_used_as_doc=key_used_as_class_docstring)
         return "\n".join(lines)
 
+    @staticmethod
+    def _quote(string: str) -> str:
+        """Write the string as a double-quoted literal."""
+        content = repr('"' + string)[2:-1].replace('"', '\\"')
+        return f'"{content}"'
+
     def update_data_and_metadata(self, other: "DictDataTypeTree") -> None:
         """Given another child, this will update the current node with all the data and metadata."""
         self.data = dict(self.dict_metadata.update(other.dict_metadata))
-- 
2.43.0


From 8059e178a72a67a76ff136536a6d358a458c6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 15/64] fix: reject the class names that are keywords or not
 identifiers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`class` or `a²` were accepted and led to code that could not be parsed.
---
 lazy_type_hint/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index ad0946a..fc62f8b 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -1,4 +1,5 @@
 import ast
+import keyword
 import os
 import subprocess
 from itertools import zip_longest
@@ -17,7 +18,7 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     Returns:
         bool: True if the string is compatible with Python keywords, False otherwise.
     """
-    return bool(string.replace("_", "").isalnum() and not string[0].isnumeric())
+    return string.isidentifier() and not keyword.iskeyword(string)
 
 
 def compare_ast(
-- 
2.43.0


From f40f51a37f33f4dfb48bccd9d3f268fbb4879da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:26 +0000
Subject: [PATCH 16/64] fix: do not use the class syntax for keys that Python
 would alter

Private names are mangled and identifiers are normalized, so that the declared keys were not the ones of the data.
---
 .../generic_type/dict_data_type_tree.py             | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 43887f3..31fa1b4 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -1,4 +1,5 @@
 import keyword
+import unicodedata
 from collections import defaultdict
 from dataclasses import dataclass, field
 from itertools import islice
@@ -130,9 +131,19 @@ class DictMetadata:
     @cache_returned_value_per_instance
     def _all_keys_are_parsable(self) -> bool:
         if self._all_keys_are_string(self._data) and all(key not in keyword.kwlist for key in self._data):
-            return all(is_string_python_keyword_compatible(key) for key in self._data)
+            return all(
+                is_string_python_keyword_compatible(key) and not self._is_altered_by_python(key)
+                for key in self._data
+                if not self.hidden_key_prefix or not key.startswith(self.hidden_key_prefix)
+            )
         return False
 
+    @staticmethod
+    def _is_altered_by_python(key: Any) -> bool:
+        """Check if the name of an attribute would differ from the key: Private name mangling and normalization."""
+        is_mangled = key.startswith("__") and not key.endswith("__")
+        return is_mangled or unicodedata.normalize("NFKC", key) != key
+
     def update(self, other: "DictMetadata") -> Mapping[Hashable, object]:
         """Update the wrapped dictionary and its metadata by including a new metadata object."""
         for key, value in other._data.items():
-- 
2.43.0


From e059db69e29e5254d052d5316d9d2549f8d65d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:26 +0000
Subject: [PATCH 17/64] fix: do not use characters that are not allowed within
 identifiers to name the types

---
 .../data_type_tree/generic_type/mapping_data_type_tree.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 6603bd6..cacff7a 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -105,7 +105,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         idx_to_remove: Set[int] = set()
         removed = False
         for idx, char in enumerate(string):
-            if not char.isalpha() and not char.isnumeric():
+            if (not char.isalpha() and not char.isnumeric()) or not f"_{char}".isidentifier():
                 idx_to_remove.add(idx)
             if idx not in idx_to_remove:
                 if removed is True:
-- 
2.43.0


From 72e138045c8eadbcd4e42ae7d0cae400c4afd1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 18/64] fix: do not reuse the output rendered with other
 options

Once rendered without imports, a tree was always rendered without imports (also by `to_file`) and vice versa.
---
 lazy_type_hint/data_type_tree/data_type_tree.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 01de10d..fb37cdb 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -206,7 +206,6 @@ class DataTypeTree(ABC):
         )
 
     @final
-    @cache_returned_value_per_instance
     def get_strs_all_nodes_unformatted(
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
-- 
2.43.0


From 06c049fe282f163cc907239c55de552d08c2f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 19/64] fix: refer to the type aliases by the name they are
 declared with

The names were altered when they were used from a TypedDict (e.g. with `my_class` as class name).
---
 .../data_type_tree/generic_type/dict_data_type_tree.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 31fa1b4..e1ea6e3 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -278,8 +278,7 @@ class DictDataTypeTree(MappingDataTypeTree):
                 if not value.permission_to_be_created_as_type_alias:
                     content[key] = value.get_str_top_node_without_lvalue()
                 else:
-                    name = self._to_camel_case(value.name)
-                    content[key] = name
+                    content[key] = value.name
                 if key in self.dict_metadata.key_info:
                     if not self.dict_metadata.key_info[key].required:
                         self.imports.add("NotRequired")
-- 
2.43.0


From 522f6907dbdcd6b54ddb00987825d86ec573e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 20/64] fix: reuse the tree of the equal elements of a tuple

Equal elements were renamed to the same name, but each one was rendered on its own. Whenever the order of the
keys was different, the same name was defined multiple times.
---
 .../generic_type/set_and_sequence_operations.py      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index fd7edb1..7e12f89 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -69,7 +69,9 @@ class SetAndSequenceOperations:
                 # Tuple case
                 children = cast("List[DataTypeTree]", children)
                 if child in names_added:
-                    child.rename(names_added[child])
+                    if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
+                        self._update_existing_typed_dict_child_from_another_equal_child(children, child)
+                    child = next(child_added for child_added in children if child_added == child)
                 children.append(child)
                 names_added[child] = child.name
             else:
@@ -113,10 +115,10 @@ class SetAndSequenceOperations:
         a new child that contains a merged dictionary with the merged metadata is created. Then, all those TypedDict
         based children are replaced within `children` by the newly created merged child.
         """
-        n_typed_dicts = sum(
-            isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict for child in children
-        )
-        if n_typed_dicts < 2:
+        typed_dicts = {
+            child for child in children if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict
+        }
+        if len(typed_dicts) < 2:
             return tuple(children)
         comparison = DictDataTypeTree.compare_multiple_typed_dicts_based_trees(*children)
         if comparison.percentage_similarity < merge_if_similarity_above:
-- 
2.43.0


From f2d6f38489c000a013c55416be93245dfb07735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 21/64] fix: never declare two different types with the same
 name

{"a_b": {"x": 1}, "aB": {"y": 1}} declared `CAB` twice. Names imported by the generated code are not used either.
---
 .../data_type_tree/data_type_tree.py           | 18 ++++++++++++++++++
 lazy_type_hint/utils/import_manager.py         |  5 +++++
 2 files changed, 23 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index fb37cdb..5dbe677 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -10,6 +10,7 @@ from typing import (
     TYPE_CHECKING,
     Any,
     ClassVar,
+    Dict,
     FrozenSet,
     Hashable,
     Mapping,
@@ -210,6 +211,7 @@ class DataTypeTree(ABC):
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
         """Get, ordered by dependencies, all strings representing the whole tree."""
+        self._make_names_unique(dict.fromkeys([self.name, *self.imports.names_available], self))
         strings: OrderedSet[str] = OrderedSet()
         self._get_strs_all_nodes_unformatted(types=strings)
         strings_lst = strings.as_list()
@@ -224,6 +226,22 @@ class DataTypeTree(ABC):
             strings_lst.append(f"class {old_name}(_{old_name}):\n{TAB}...")
         return tuple(strings_lst)
 
+    @final
+    def _make_names_unique(self, trees: Dict[str, DataTypeTree]) -> None:
+        """Rename, following the order they are declared, the type aliases whose name is already taken.
+
+        `trees` holds the names that are already taken and the tree they belong to.
+        """
+        for child in self:
+            child._make_names_unique(trees)
+            if child.permission_to_be_created_as_type_alias:
+                name = child.name
+                count = 2
+                while trees.setdefault(name, child) is not child:
+                    name = f"{child.name}{count}"
+                    count += 1
+                child.name = name
+
     @staticmethod
     def rename_declaration(declaration: str, new_name: str) -> Tuple[str, str]:
         if "=" in declaration:
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index c0efde3..968fd8b 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -84,6 +84,11 @@ class ImportManager:
         }
     )
 
+    @property
+    def names_available(self) -> Tuple[str, ...]:
+        """Names that could be imported by the generated code."""
+        return "pd", "np", *(reference[-1] for reference in self.PACKAGE.values())
+
     def add(self, keyword: KEYWORDS_AVAILABLE) -> "Self":
         self._set.add(keyword)
         return self
-- 
2.43.0


From dc80a9cdab2a5d6d264d6a85c142f0d69c528b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 22/64] fix: reject 0 as the maximum number of elements to
 check

It was accepted and meant that there was no limit.
---
 lazy_type_hint/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/strategies.py b/lazy_type_hint/strategies.py
index f518eaa..fb3ba99 100644
--- a/lazy_type_hint/strategies.py
+++ b/lazy_type_hint/strategies.py
@@ -39,5 +39,5 @@ class ParsingStrategies:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be greater than 0")
         if self.merge_different_typed_dicts_if_similarity_above > 100:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be less than 100")
-        if self.check_max_n_elements_within_container and self.check_max_n_elements_within_container <= 0:
+        if self.check_max_n_elements_within_container is not None and self.check_max_n_elements_within_container <= 0:
             raise ValueError("`chec_max_n_type_elements_within_container` must at least 1")
-- 
2.43.0


From b24acc3ea1bc29dc4d2781a1a8980eff7a2bd86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 23/64] fix: support callables whose source or signature are
 not available

Built-in functions, class methods and functions defined through `exec` made the generation fail. The return type
is described as Any whenever it cannot be inferred.
---
 .../simple_data_type_tree/function_data_type_tree.py      | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index c92630d..14f0498 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -28,10 +28,12 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
 
     @property
     def can_be_inspected(self) -> bool:
+        if isinstance(self.data, BuiltinFunctionType):  # Neither its source nor its return type are available
+            return False
         try:
             inspect.signature(self.data)
             return True
-        except ValueError:
+        except (TypeError, ValueError):
             return False
 
     def _get_str_top_node(self) -> str:
@@ -48,7 +50,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         self.imports.import_all_unkown_symbols_from_signature(args)
 
         if "->" not in args:
-            if not self._has_return():
+            if self._has_return() is False:
                 return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
             self.imports.add("Any")
             return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
@@ -76,8 +78,8 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
-        code = textwrap.dedent(inspect.getsource(self.data))
         try:
+            code = textwrap.dedent(inspect.getsource(self.data))
             tree = ast.parse(code)
         except:  # noqa: E722
             return None
-- 
2.43.0


From 6912c17c6463108af56e68183d0b76d7836bd065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:36 +0000
Subject: [PATCH 24/64] fix: do not describe generators and coroutines as
 functions returning None

---
 .../simple_data_type_tree/function_data_type_tree.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 14f0498..5aef409 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -83,4 +83,5 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             tree = ast.parse(code)
         except:  # noqa: E722
             return None
-        return any(isinstance(node, ast.Return) for node in ast.walk(tree))
+        nodes_that_return = (ast.Return, ast.Yield, ast.YieldFrom, ast.AsyncFunctionDef)
+        return any(isinstance(node, nodes_that_return) for node in ast.walk(tree))
-- 
2.43.0


From 80e30be1325a2dc1a3409131a845ee95091c1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:32 +0000
Subject: [PATCH 25/64] fix: distinguish the functions whose inferred return
 type is different

[f, g] lost the type of g if only f returned None and both had the same arguments.
---
 .../simple_data_type_tree/function_data_type_tree.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 5aef409..9da1b83 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -74,7 +74,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return str(f"Callable[[{', '.join(['Any']*len(self.get_func_params().values()))}], Any]")
         else:
             if self.can_be_inspected:
-                return str(inspect.signature(self.data))
+                return self._get_protocol_str().split("\n", 1)[1]
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
-- 
2.43.0


From 549c94070ce23303979c2933a2a2cfea9b0cadb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 26/64] fix: do not write default values that cannot be parsed

The representation of default values such as object() or enumeration members was not valid code.
---
 .../function_data_type_tree.py                    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 9da1b83..e7def65 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -45,7 +45,9 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         return self._get_protocol_str()
 
     def _get_protocol_str(self) -> str:
-        args = str(inspect.signature(self.data))
+        signature = inspect.signature(self.data)
+        parameters = [self._make_default_parsable(parameter) for parameter in signature.parameters.values()]
+        args = str(signature.replace(parameters=parameters))
         self.imports.add("Protocol")
         self.imports.import_all_unkown_symbols_from_signature(args)
 
@@ -56,6 +58,17 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
         return f"""class {self.name}(Protocol):\n{TAB}def __call__{args}: ..."""
 
+    @staticmethod
+    def _make_default_parsable(parameter: Parameter) -> Parameter:
+        """Replace the default value by an ellipsis if its representation is not a literal."""
+        if parameter.default is Parameter.empty:
+            return parameter
+        try:
+            ast.literal_eval(repr(parameter.default))
+        except Exception:  # noqa: BLE001
+            return parameter.replace(default=...)
+        return parameter
+
     def get_func_params(self) -> MappingProxyType[str, Parameter]:
         signature = inspect.signature(self.data)
         return signature.parameters
-- 
2.43.0


From 0906d07eceb468601c54f56c34d4aa1eab9e57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:41 +0000
Subject: [PATCH 27/64] fix: do not count variadic and keyword-only arguments
 of lambdas as positional

`lambda *, k: 1` was described as a callable that takes one positional argument.
---
 .../simple_data_type_tree/function_data_type_tree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index e7def65..7cd3c6c 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -76,15 +76,19 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
     def _get_lambda_str(self) -> str:
         self.imports.add("Callable").add("Any").add("TypeAlias")
         if self.can_be_inspected:
-            return (
-                f"{self.name}: TypeAlias = Callable[[{', '.join(['Any']*len(self.get_func_params().values()))}], Any]"
-            )
+            return f"{self.name}: TypeAlias = Callable[{self._get_lambda_arguments()}, Any]"
         return f"{self.name}: TypeAlias = Callable"
 
+    def _get_lambda_arguments(self) -> str:
+        params = self.get_func_params().values()
+        if any(param.kind not in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD) for param in params):
+            return "..."
+        return f"[{', '.join(['Any'] * len(params))}]"
+
     @override
     def _get_hash(self) -> Hashable:
         if self.is_lambda and self.can_be_inspected:
-            return str(f"Callable[[{', '.join(['Any']*len(self.get_func_params().values()))}], Any]")
+            return f"Callable[{self._get_lambda_arguments()}, Any]"
         else:
             if self.can_be_inspected:
                 return self._get_protocol_str().split("\n", 1)[1]
-- 
2.43.0


From 6eb292a7c0fee5cc4be2e37cc93e21bdf4affe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 28/64] fix: import exactly the symbols used by the annotations
 of the signatures

Those that followed a comma were not imported, and List was imported whenever `list` was used.
---
 lazy_type_hint/utils/import_manager.py | 27 +++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index 968fd8b..10829f8 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -1,7 +1,8 @@
+import ast
 import re
 from collections import defaultdict
 from dataclasses import dataclass, field
-from typing import TYPE_CHECKING, Dict, Final, List, Literal, Mapping, Optional, Sequence, Set, Tuple
+from typing import TYPE_CHECKING, Dict, Final, List, Literal, Mapping, Sequence, Set, Tuple
 
 from typing_extensions import TypeGuard
 
@@ -100,17 +101,15 @@ class ImportManager:
         Args:
             signature (str): The signature containing type hints.
         """
-        hints = re.findall(r":\s*([^\s,]+)", signature)
-        for hint in hints:
-            hint_ = str(hint).strip().rstrip().replace("):", "")
-            self._import_symbols(hint_)
-
-        pattern = r"->\s*([^\s,]+|$)"
-        re_output = re.search(pattern, signature)
-        return_value: Optional[str] = None
-        if re_output:
-            return_value = re_output.group(1).rstrip(":")
-            self._import_symbols(return_value)
+        start = signature.find("(")
+        try:
+            tree = ast.parse(f"def _{signature[start:].rstrip(':')}: ..." if start >= 0 else "")
+        except SyntaxError:
+            return
+        for node in ast.walk(tree):
+            for hint in (getattr(node, "annotation", None), getattr(node, "returns", None)):
+                if isinstance(hint, ast.AST):
+                    self._import_symbols(ast.unparse(hint))  # type: ignore
 
     def _import_symbols(self, symbol: str) -> None:
         """Import all unknown symbols. Including those belonging to generic type hints."""
@@ -122,8 +121,10 @@ class ImportManager:
 
     @staticmethod
     def _cast_symbol(symbol: str) -> str:
-        if symbol in ("List", "Tuple", "Set", "Dict"):
+        if symbol in ("List", "Tuple", "Set", "Dict", "Type"):
             return symbol.lower()
+        if symbol in ("list", "tuple", "set", "dict", "type"):
+            return ""  # Builtins do not need to be imported
         return symbol
 
     def _is_importable_symbol(self, symbol: str) -> TypeGuard[KEYWORDS_AVAILABLE]:
-- 
2.43.0


From 52a5dc36a5b626ff2c6cc6ea09b46a5a333df9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 29/64] fix: describe the open files as files

They were consumed and described as iterators.
---
 lazy_type_hint/data_type_tree/data_type_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 5dbe677..ed0783e 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -13,6 +13,7 @@ from typing import (
     Dict,
     FrozenSet,
     Hashable,
+    Iterator,
     Mapping,
     Optional,
     Sequence,
@@ -107,7 +108,8 @@ class DataTypeTree(ABC):
         if type(data) in DataTypeTree.subclasses:
             return DataTypeTree.subclasses[type(data)]
 
-        for subclass in DataTypeTree.subclasses.values():
+        # Many objects, such as the files, are also iterators. Therefore, this is the last option to be considered.
+        for subclass in sorted(DataTypeTree.subclasses.values(), key=lambda subclass: Iterator in subclass.wraps):
             for wrap in subclass.wraps:
                 if isinstance(data, wrap):
                     return subclass
-- 
2.43.0


From 23452b6905d8fd57f6959f10802e9bd799a33a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 30/64] fix: do not describe binary files as text ones

---
 .../simple_data_type_tree/io_data_type_tree.py              | 6 ++++--
 lazy_type_hint/utils/import_manager.py                      | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
index 180390f..71a18b8 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
@@ -1,4 +1,5 @@
 import io
+from typing import Literal
 
 from typing_extensions import override
 
@@ -10,5 +11,6 @@ class IoDataTypeTree(SimpleDataTypeTree):
 
     @override
     def _get_str_top_node(self) -> str:
-        self.imports.add("TextIO").add("TypeAlias")
-        return f"{self.name}: TypeAlias = TextIO"
+        container: Literal["TextIO", "BinaryIO"] = "TextIO" if isinstance(self.data, io.TextIOBase) else "BinaryIO"
+        self.imports.add(container).add("TypeAlias")
+        return f"{self.name}: TypeAlias = {container}"
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index 10829f8..db6ca12 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -41,6 +41,7 @@ KEYWORDS_AVAILABLE: "TypeAlias" = Literal[
     "NDArray",
     "ModuleType",
     "TextIO",
+    "BinaryIO",
     "annotations",
 ]
 
@@ -80,6 +81,7 @@ class ImportManager:
             "TypeAlias": ("typing_extensions", "TypeAlias"),
             "pd.Scalar": ("pandas._typing", "Scalar"),
             "TextIO": ("typing", "TextIO"),
+            "BinaryIO": ("typing", "BinaryIO"),
             "Iterator": ("typing", "Iterator"),
             "annotations": ("__future__", "annotations"),
         }
-- 
2.43.0


From cc6e8e5c893436f97a445f3448b46bfe026dbe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 31/64] fix: escape the text of the docstrings

Triple quotes and backslashes led to invalid code or to a different text.
---
 lazy_type_hint/utils/docstring_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index 77abf9d..beba62d 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -46,7 +46,7 @@ def format_string_as_docstring(string: str, *, max_line_length: int = 90, indent
     Returns:
         str: The formatted docstring.
     """
-    string = string.rstrip("\n")
+    string = string.replace("\\", "\\\\").replace('"""', '\\"\\"\\"').rstrip("\n")
     if not string.endswith("."):
         string += "."
     docstring = '"""' + string + '"""'
-- 
2.43.0


From ba386f8a4498b6ad852159b8fd04deeef83c6367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 32/64] fix: use a different temporary file for every YAML file

Files with the same name shared the temporary file, which was never removed: two simultaneous calls could get the
type hints of the file of each other.
---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 6 +++---
 lazy_type_hint/generators/lazy_type_hint_abc.py     | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 208c386..ffd35d1 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -426,6 +426,6 @@ class YamlFileModifier:
             Path: The path to the newly created YAML file.
         """
         string = self._create_temporary_string_with_comments_as_keys()
-        path = Path(tempfile.gettempdir()) / f"_{self.path.name}"
-        path.write_text(string)
-        return path
+        with tempfile.NamedTemporaryFile("w", suffix=f"_{self.path.name}", delete=False) as file:
+            file.write(string)
+        return Path(file.name)
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index b143cf5..8fdb958 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -70,7 +70,10 @@ class LazyTypeHintABC(ABC):
         original_data = loader(path)
         try:
             new_path: PathT = type(path)(yaml_file_modifier.create_temporary_file_with_comments_as_keys())
-            potentially_modified_data = loader(new_path)
+            try:
+                potentially_modified_data = loader(new_path)
+            finally:
+                os.remove(new_path)
             return self.from_data(potentially_modified_data, class_name=class_name)
         except Exception:  # noqa: BLE001
             return self.from_data(original_data, class_name=class_name)
-- 
2.43.0


From 9ec64b18e23accff86d21ef78daac659dbfcf356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 33/64] fix: do not count the hidden keys as elements of the
 dictionaries

The comments of a YAML file halved the number of elements that were checked.
---
 .../data_type_tree/generic_type/dict_data_type_tree.py     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index e1ea6e3..cd8e9e3 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -240,7 +240,12 @@ class DictDataTypeTree(MappingDataTypeTree):
     def __pre_child_instantiation__(self) -> None:
         check_n_max = self.strategies.check_max_n_elements_within_container
         if self.strategies.dict_strategy != "TypedDict" and check_n_max:
-            self.data = dict(islice(self.data.items(), check_n_max))
+            visible_items = (
+                (key, value)
+                for key, value in self.data.items()
+                if not (isinstance(key, str) and key.startswith(self.hidden_keys_prefix))
+            )
+            self.data = dict(islice(visible_items, check_n_max))
         self.dict_metadata = DictMetadata(
             self.data, hidden_key_prefix=self.hidden_keys_prefix, strategies=self.strategies
         )
-- 
2.43.0


From b5fccd5cfa5b4c8ef9ad45b1c8705cb36e669c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 34/64] fix: take into account the type hints created or
 removed by other instances

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 83848e3..ea4eb57 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -71,6 +71,10 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self.strategies = strategies
         self.if_type_hint_exists = if_type_hint_exists
 
+        self._load_this_file_pyi()
+
+    @final
+    def _load_this_file_pyi(self) -> None:
         if not self._this_file_pyi_path.exists():
             self.this_file_pyi = self._generate_this_file_pyi()
         else:
@@ -120,6 +124,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             raise LazyTypeHintLiveError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
+        self._load_this_file_pyi()  # It might have been modified by other instances
         custom_class_file_path = self._custom_class_dir_path / f"{class_name}.py"
 
         if class_name in self._get_classes_added() and self.if_type_hint_exists == "validate":
-- 
2.43.0


From 25ed4168a7cae747898a3d50e226719632fec341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 35/64] fix: do not leave half written files when generating
 live type hints is interrupted

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index ea4eb57..4a4dc8d 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -182,7 +182,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             os.makedirs(self._custom_class_dir_path)
 
         path = self._custom_class_dir_path / f"{class_name}.py"
-        path.write_text(string)
+        self._write_atomically(path, string)
 
     @final
     def _add_new_class_to_loader_pyi(self, *, new_class: str) -> None:
@@ -190,6 +190,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self._add_import_to_this_file_pyi(new_class)
         for method_name in self._methods_to_be_overloaded:
             self._add_overload_to_this_file_pyi(new_class=new_class, method_name=method_name)
+        self._update_this_file_pyi()
 
     @final
     def _add_import_to_this_file_pyi(self, new_class: str) -> None:
@@ -198,7 +199,6 @@ class LazyTypeHintLive(LazyTypeHintABC):
             import_statement,
             in_type_checking_block=False,
         )
-        self._update_this_file_pyi()
 
     @final
     def _add_overload_to_this_file_pyi(
@@ -232,7 +232,6 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
         idx = self.this_file_pyi.search_method(method_name=method_name, return_index_above_decorator=True)[-1]
         self.this_file_pyi.add_line(idx, signature)
-        self._update_this_file_pyi()
 
     @final
     def _add_class_created_to_this_file_pyi(self, new_class: str) -> None:
@@ -249,8 +248,13 @@ class LazyTypeHintLive(LazyTypeHintABC):
             value = value.replace("], Any]", f', "{new_class}"], Any]')
 
         self.this_file_pyi.replace_assignement(label, value)
-        self._update_this_file_pyi()
 
     @final
     def _update_this_file_pyi(self) -> None:
-        self._this_file_pyi_path.write_text(str(self.this_file_pyi))
+        self._write_atomically(self._this_file_pyi_path, str(self.this_file_pyi))
+
+    def _write_atomically(self, path: Path, content: str) -> None:
+        """Write the file in such a way that it is never left half written."""
+        temporary_path = self._custom_class_dir_path / f"{path.name}.tmp"
+        temporary_path.write_text(content, encoding="utf-8")
+        os.replace(temporary_path, path)
-- 
2.43.0


From f7013fd6bb57088ca3e87ecb808748f751ded260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 36/64] fix: leave a valid state when resetting the live type
 hints is interrupted

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 4a4dc8d..56477dc 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -162,10 +162,11 @@ class LazyTypeHintLive(LazyTypeHintABC):
     @classmethod
     def reset(cls) -> None:
         """Remove all existing type hints generated by this class."""
-        if cls._custom_class_dir_path.exists():
-            shutil.rmtree(cls._custom_class_dir_path)
+        # The .pyi is removed first: it must never refer to classes that do not exist any longer
         if cls._this_file_pyi_path.exists():
             os.remove(cls._this_file_pyi_path)
+        if cls._custom_class_dir_path.exists():
+            shutil.rmtree(cls._custom_class_dir_path)
 
     @final
     def _generate_this_file_pyi(self) -> PyFileModifier:
-- 
2.43.0


From c40decb3c09591b916f5d83c5213eb437cdab180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 37/64] fix: ignore only the docstrings when validating the
 existing type hints

---
 .../generators/lazy_type_hint_live.py           | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 56477dc..0022b49 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -1,3 +1,4 @@
+import ast
 import os
 import re
 import shutil
@@ -151,13 +152,17 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @staticmethod
     def _remove_docstrings(string: str) -> str:
-        if '"""' not in string:
-            return string
+        tree = ast.parse(string)
+        for node in ast.walk(tree):
+            if isinstance(node, (ast.Module, ast.ClassDef)):
+                node.body = [stmt for stmt in node.body if not LazyTypeHintLive._is_docstring(stmt)]
+        return ast.dump(tree)
 
-        strings = string.splitlines()
-        for idx, string in enumerate(strings):
-            strings[idx] = "" if '"""' in string else string
-        return "\n".join(strings)
+    @staticmethod
+    def _is_docstring(stmt: ast.stmt) -> bool:
+        return (
+            isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant) and isinstance(stmt.value.value, str)
+        )
 
     @classmethod
     def reset(cls) -> None:
-- 
2.43.0


From 2d7e5db10a744fe36bca11110298e3d9750bfee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:03 +0000
Subject: [PATCH 38/64] fix: return the content of the YAML files without the
 keys that hold the comments

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 0022b49..3f1799c 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -112,7 +112,16 @@ class LazyTypeHintLive(LazyTypeHintABC):
         comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]] = "side",
         **kwargs: Any,
     ) -> ObjectT:
-        return super().from_yaml_file(loader=loader, path=path, class_name=class_name, comments_are=comments_are)  # type: ignore
+        data_loaded: Dict[PathT, ObjectT] = {}
+
+        def loader_that_keeps_data(path_: PathT) -> ObjectT:
+            data_loaded[path_] = loader(path_)
+            return data_loaded[path_]
+
+        super().from_yaml_file(
+            loader=loader_that_keeps_data, path=path, class_name=class_name, comments_are=comments_are
+        )
+        return data_loaded[path]  # The data parsed could have extra keys that hold the comments
 
     @override
     def from_data(
-- 
2.43.0


From 100e6238c3a540b85d1800cf383ae503f59fc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 39/64] fix: write the generated files as UTF-8, as Python
 expects

---
 lazy_type_hint/generators/lazy_type_hint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint.py b/lazy_type_hint/generators/lazy_type_hint.py
index 0e3e295..2caa569 100644
--- a/lazy_type_hint/generators/lazy_type_hint.py
+++ b/lazy_type_hint/generators/lazy_type_hint.py
@@ -39,7 +39,7 @@ class Tree:
                     "(create_non_existing_dir input argument) were not set"
                 )
             os.makedirs(path_to_py.parent)
-        path_to_py.write_text(self.to_string(include_imports=True))
+        path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
 class LazyTypeHint(LazyTypeHintABC):
-- 
2.43.0


From 5a87730b14d8731129097670a6dca193798a14bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:35 +0000
Subject: [PATCH 40/64] fix: ignore the comments of a YAML file when
 introducing them would alter its content

---
 .../generators/lazy_type_hint_abc.py          | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index 8fdb958..793f112 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -5,6 +5,7 @@ from pathlib import Path
 from typing import (
     Any,
     Callable,
+    List,
     Optional,
     Sequence,
     TypeVar,
@@ -74,10 +75,29 @@ class LazyTypeHintABC(ABC):
                 potentially_modified_data = loader(new_path)
             finally:
                 os.remove(new_path)
+            self._restore_original_content(potentially_modified_data, original_data)
             return self.from_data(potentially_modified_data, class_name=class_name)
         except Exception:  # noqa: BLE001
             return self.from_data(original_data, class_name=class_name)
 
+    @classmethod
+    def _restore_original_content(cls, data: Any, original_data: Any) -> None:
+        """Check that the hidden keys are the only difference with the original data, and restore its strings."""
+        keys, original_keys = cls._get_visible_keys(data), cls._get_visible_keys(original_data)
+        if type(data) is not type(original_data) or keys != original_keys:
+            raise LazyTypeHintError("The comments cannot be introduced without altering the content of the file")
+        for key in keys:
+            if isinstance(original_data[key], str):
+                data[key] = original_data[key]
+            else:
+                cls._restore_original_content(data[key], original_data[key])
+
+    @staticmethod
+    def _get_visible_keys(data: Any) -> List[Any]:
+        if isinstance(data, dict):
+            return [key for key in data if not (isinstance(key, str) and key.startswith(YamlFileModifier.prefix))]
+        return list(range(len(data))) if isinstance(data, list) else []
+
     def from_data(
         self,
         data: object,
-- 
2.43.0


From 2c20ee1a6a7caba5cc7634fab731a3b18d27aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 41/64] fix: read the YAML files regardless of the locale and
 of their encoding

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index ffd35d1..eea0d4f 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -80,7 +80,7 @@ class YamlFileModifier:
         self.path = Path(path)
         if not self.path.suffix.endswith((".yaml", ".yml")):
             raise YamlFileModifierError(f"Only `.yaml` or `.yml` are allowed. File given is: {self.path}")
-        self.lines = tuple(Path(path).read_text().splitlines())
+        self.lines = tuple(Path(path).read_text(encoding="utf-8", errors="surrogateescape").splitlines())
         comments_are = (comments_are,) if isinstance(comments_are, str) else tuple(comments_are)
         self.comments_are = comments_are
 
@@ -426,6 +426,8 @@ class YamlFileModifier:
             Path: The path to the newly created YAML file.
         """
         string = self._create_temporary_string_with_comments_as_keys()
-        with tempfile.NamedTemporaryFile("w", suffix=f"_{self.path.name}", delete=False) as file:
+        with tempfile.NamedTemporaryFile(
+            "w", encoding="utf-8", errors="surrogateescape", suffix=f"_{self.path.name}", delete=False
+        ) as file:
             file.write(string)
         return Path(file.name)
-- 
2.43.0


From 505237ef528f24c111cde18072f70cc2a1981a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 42/64] fix: do not read the last comment of a YAML file as if
 it were above its first line

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index eea0d4f..a8a3c4c 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -202,7 +202,7 @@ class YamlFileModifier:
         increment = step
         multi_line_comments: List[str] = []
         with suppress(IndexError):
-            while self.lines[line_idx + increment][idx_first_char] == "#":
+            while line_idx + increment >= 0 and self.lines[line_idx + increment][idx_first_char] == "#":
                 multi_line_comments.append(self.lines[line_idx + increment][idx_first_char + 1 :].strip())
                 increment += step
 
-- 
2.43.0


From b56c3134ae910afcd88bd7e50748b242372c9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 43/64] fix: do not take what is within other lines of a YAML
 file as a block comment

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index a8a3c4c..8921a67 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -203,6 +203,8 @@ class YamlFileModifier:
         multi_line_comments: List[str] = []
         with suppress(IndexError):
             while line_idx + increment >= 0 and self.lines[line_idx + increment][idx_first_char] == "#":
+                if self.lines[line_idx + increment][:idx_first_char].strip():
+                    break  # It is the side comment, or part of the value, of another line
                 multi_line_comments.append(self.lines[line_idx + increment][idx_first_char + 1 :].strip())
                 increment += step
 
-- 
2.43.0


From 9def09c18ca2fde1fe03281375476027b56a4c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 44/64] fix: keep the comments of YAML files with elements of a
 list below their hyphen

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 8921a67..d65c306 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -253,6 +253,8 @@ class YamlFileModifier:
         line = YamlFileModifier._remove_spacing(line)
         if line[0] == "-":  # Detect list cases
             line = " " + line[1:]
+        if not line.strip():  # The element of the list is below
+            return ""
 
         idx_first_char = line.find(line.strip()[0])
         idx_last_char = YamlFileModifier._find_first_occurrence_that_is_not_between(line=line, occurrence=":")
-- 
2.43.0


From 66b6cccbc2c129827d8aba11eda7e446c000f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:45 +0000
Subject: [PATCH 45/64] fix: keep the comments of YAML files whose lists use
 other spacing after the hyphen

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index d65c306..bab956f 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -414,9 +414,12 @@ class YamlFileModifier:
         new_lines = list(self.lines).copy()
         for comment in reverse_order_comments:
             key = self.prefix + comment.associated_with_key
-            string = f"{comment.spacing}{key}: |{self._format_comment_as_multiline_yaml(comment)}"
+            spacing = comment.spacing
             if comment.must_replace_its_key_as_first_element_of_list:
-                new_lines[comment.key_line] = new_lines[comment.key_line].replace("-", " ", 1)
+                line = new_lines[comment.key_line]
+                spacing = line[: len(spacing)]  # Hyphens must be kept where they were
+                new_lines[comment.key_line] = spacing.replace("-", " ") + line[len(spacing) :]
+            string = f"{spacing}{key}: |{self._format_comment_as_multiline_yaml(comment)}"
             new_lines.insert(comment.key_line, string)
         return "\n".join(new_lines)
 
-- 
2.43.0


From 21d2f1dcf94a20fb1a987d18dd4c03d76ecda4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:34 +0000
Subject: [PATCH 46/64] fix: do not take a colon within a comment or within a
 value of a YAML list as the end of a key

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index bab956f..98f4dea 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -258,7 +258,9 @@ class YamlFileModifier:
 
         idx_first_char = line.find(line.strip()[0])
         idx_last_char = YamlFileModifier._find_first_occurrence_that_is_not_between(line=line, occurrence=":")
-        if not idx_last_char:
+        if not idx_last_char or line[idx_last_char + 1 : idx_last_char + 2].strip():
+            return ""
+        if YamlFileModifier._extract_side_comment(line[: idx_last_char + 1]):  # The colon is within the comment
             return ""
         line = line[idx_first_char:idx_last_char]
         if line.startswith('"') and line.endswith('"'):
-- 
2.43.0


From 793e52de0136b6559015d6889e2e1c49ed3f8235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 47/64] fix: keep the paragraphs and the final dot of
 documentation with spaces at the end of its lines

---
 lazy_type_hint/utils/docstring_formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index beba62d..a56ea27 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -15,7 +15,7 @@ def _split_string(string: str, *, max_line_length: int) -> Tuple[str, ...]:
     """
     substrings: List[str] = []
     for line in string.split("\n"):
-        if not line:
+        if not line.strip():
             substrings.append("")
         words = line.split()
         current_substring = ""
@@ -46,7 +46,7 @@ def format_string_as_docstring(string: str, *, max_line_length: int = 90, indent
     Returns:
         str: The formatted docstring.
     """
-    string = string.replace("\\", "\\\\").replace('"""', '\\"\\"\\"').rstrip("\n")
+    string = string.replace("\\", "\\\\").replace('"""', '\\"\\"\\"').rstrip()
     if not string.endswith("."):
         string += "."
     docstring = '"""' + string + '"""'
-- 
2.43.0


From f458a94a4cb080659d66339d62656a7e6db4f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 48/64] fix: escape the characters that cannot be within a
 Python file when writing docstrings

---
 lazy_type_hint/utils/docstring_formatter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index a56ea27..3ca355e 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -46,7 +46,9 @@ def format_string_as_docstring(string: str, *, max_line_length: int = 90, indent
     Returns:
         str: The formatted docstring.
     """
+    string = string.encode("utf-8", "backslashreplace").decode("utf-8")
     string = string.replace("\\", "\\\\").replace('"""', '\\"\\"\\"').rstrip()
+    string = "".join(char if char.isprintable() or char in "\n\t" else repr(char)[1:-1] for char in string)
     if not string.endswith("."):
         string += "."
     docstring = '"""' + string + '"""'
-- 
2.43.0


From a8b1238e8fd0456c607afea208df74f886d314a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 49/64] fix: give different names to the definitions whose
 names are the same identifier for Python

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index ed0783e..20c4457 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -5,6 +5,7 @@ This data can then be parsed to a .py compatible file that will type hint your c
 from __future__ import annotations
 
 import re
+import unicodedata
 from abc import ABC, abstractmethod
 from typing import (
     TYPE_CHECKING,
@@ -213,7 +214,8 @@ class DataTypeTree(ABC):
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
         """Get, ordered by dependencies, all strings representing the whole tree."""
-        self._make_names_unique(dict.fromkeys([self.name, *self.imports.names_available], self))
+        names_taken = [unicodedata.normalize("NFKC", self.name), *self.imports.names_available]
+        self._make_names_unique(dict.fromkeys(names_taken, self))
         strings: OrderedSet[str] = OrderedSet()
         self._get_strs_all_nodes_unformatted(types=strings)
         strings_lst = strings.as_list()
@@ -237,10 +239,10 @@ class DataTypeTree(ABC):
         for child in self:
             child._make_names_unique(trees)
             if child.permission_to_be_created_as_type_alias:
-                name = child.name
+                name = base_name = unicodedata.normalize("NFKC", child.name)  # As Python does with the identifiers
                 count = 2
                 while trees.setdefault(name, child) is not child:
-                    name = f"{child.name}{count}"
+                    name = f"{base_name}{count}"
                     count += 1
                 child.name = name
 
-- 
2.43.0


From d74539f7d29b517861598d9d0b83fa3fc1cea0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:34 +0000
Subject: [PATCH 50/64] fix: describe the coroutine functions with an
 asynchronous call

---
 .../simple_data_type_tree/function_data_type_tree.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 7cd3c6c..3bd9f09 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -51,12 +51,13 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         self.imports.add("Protocol")
         self.imports.import_all_unkown_symbols_from_signature(args)
 
+        method = "async def" if inspect.iscoroutinefunction(self.data) else "def"
         if "->" not in args:
             if self._has_return() is False:
-                return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
+                return f"""class {self.name}(Protocol):\n{TAB}{method} __call__{args} -> None: ..."""
             self.imports.add("Any")
-            return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
-        return f"""class {self.name}(Protocol):\n{TAB}def __call__{args}: ..."""
+            return f"""class {self.name}(Protocol):\n{TAB}{method} __call__{args} -> Any: ..."""
+        return f"""class {self.name}(Protocol):\n{TAB}{method} __call__{args}: ..."""
 
     @staticmethod
     def _make_default_parsable(parameter: Parameter) -> Parameter:
-- 
2.43.0


From 5771f24e61aae2875f1b0c939ec875ced95a4b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:57 +0000
Subject: [PATCH 51/64] fix: keep the type returned by the callables whose
 signature has an arrow within a text

---
 .../simple_data_type_tree/function_data_type_tree.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 3bd9f09..528cad0 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -52,7 +52,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         self.imports.import_all_unkown_symbols_from_signature(args)
 
         method = "async def" if inspect.iscoroutinefunction(self.data) else "def"
-        if "->" not in args:
+        if signature.return_annotation is inspect.Signature.empty:
             if self._has_return() is False:
                 return f"""class {self.name}(Protocol):\n{TAB}{method} __call__{args} -> None: ..."""
             self.imports.add("Any")
-- 
2.43.0


From 87c3c128b903943e97aad830775e53bde7678f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:02 +0000
Subject: [PATCH 52/64] fix: declare as classes the data frames mixing tuples
 and plain names as columns

---
 .../generic_type/pandas_data_frame_data_type_tree.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 43e9b6a..ed84895 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -90,8 +90,10 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
             - If columns are tuples: And first level are str, int or bool
             - If columns are not tuples: And columns are str, int, bool
 
-        Otherwise delegate to super class
+        Otherwise delegate to super class, unless it is declared as a class
         """
+        if self.children:
+            return True
         if all(isinstance(column, tuple) for column in self.data.columns):
             if all(isinstance(column[0], (str, bool, int)) for column in self.data.columns):
                 return True
-- 
2.43.0


From 5371a98c1e4706aa15705fdde938f4f587ee37dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:36 +0000
Subject: [PATCH 53/64] fix: mark the read-only keys that are not required so
 that they are found not required at run time

---
 .../data_type_tree/generic_type/dict_data_type_tree.py     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index cd8e9e3..745ccd7 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -285,12 +285,13 @@ class DictDataTypeTree(MappingDataTypeTree):
                 else:
                     content[key] = value.name
                 if key in self.dict_metadata.key_info:
-                    if not self.dict_metadata.key_info[key].required:
-                        self.imports.add("NotRequired")
-                        content[key] = f"NotRequired[{content[key]}]"
+                    # `NotRequired` must be the outer one to be found at run time
                     if self.strategies.typed_dict_read_only_values:
                         self.imports.add("ReadOnly")
                         content[key] = f"ReadOnly[{content[key]}]"
+                    if not self.dict_metadata.key_info[key].required:
+                        self.imports.add("NotRequired")
+                        content[key] = f"NotRequired[{content[key]}]"
         return self._build_typed_dict(
             name=self.name,
             content=content,
-- 
2.43.0


From 6a35e0c3c295f86c707d6028f666b04c41786ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:15 +0000
Subject: [PATCH 54/64] fix: do not name the definitions as the builtins they
 may refer to

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 20c4457..3e24d1a 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -4,6 +4,7 @@ This data can then be parsed to a .py compatible file that will type hint your c
 """
 from __future__ import annotations
 
+import builtins
 import re
 import unicodedata
 from abc import ABC, abstractmethod
@@ -214,7 +215,7 @@ class DataTypeTree(ABC):
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
         """Get, ordered by dependencies, all strings representing the whole tree."""
-        names_taken = [unicodedata.normalize("NFKC", self.name), *self.imports.names_available]
+        names_taken = [unicodedata.normalize("NFKC", self.name), *self.imports.names_available, *vars(builtins)]
         self._make_names_unique(dict.fromkeys(names_taken, self))
         strings: OrderedSet[str] = OrderedSet()
         self._get_strs_all_nodes_unformatted(types=strings)
-- 
2.43.0


From 796af0914949e91fedd83b778062157f0545b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:50 +0000
Subject: [PATCH 55/64] fix: do not share temporary files between the processes
 generating live type hints

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 3f1799c..6a6d4d9 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -2,6 +2,7 @@ import ast
 import os
 import re
 import shutil
+import uuid
 from pathlib import Path
 from typing import (
     Any,
@@ -193,8 +194,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
         return file_handler
 
     def _create_custom_class_py(self, string: str, class_name: str) -> None:
-        if not self._custom_class_dir_path.exists():
-            os.makedirs(self._custom_class_dir_path)
+        os.makedirs(self._custom_class_dir_path, exist_ok=True)
 
         path = self._custom_class_dir_path / f"{class_name}.py"
         self._write_atomically(path, string)
@@ -269,7 +269,10 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self._write_atomically(self._this_file_pyi_path, str(self.this_file_pyi))
 
     def _write_atomically(self, path: Path, content: str) -> None:
-        """Write the file in such a way that it is never left half written."""
-        temporary_path = self._custom_class_dir_path / f"{path.name}.tmp"
+        """Write the file in such a way that it is never left half written.
+
+        The temporary file is not shared with any other process that could be doing the same.
+        """
+        temporary_path = self._custom_class_dir_path / f"{path.name}.{uuid.uuid4().hex}.tmp"
         temporary_path.write_text(content, encoding="utf-8")
         os.replace(temporary_path, path)
-- 
2.43.0


From 58e6007ae609e6ed3f8ba7faef591b9dda6d0e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:28 +0000
Subject: [PATCH 56/64] fix: do not lose all the comments of a YAML file with a
 tab within its comments or its values

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 98f4dea..273cd75 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -161,7 +161,7 @@ class YamlFileModifier:
         if not idx:
             return ""
         try:
-            if line[idx - 1] != " ":
+            if line[idx - 1] not in (" ", "\t"):
                 return ""
         except IndexError:
             return ""
@@ -250,7 +250,7 @@ class YamlFileModifier:
             - key: value
               key2: value
         """
-        line = YamlFileModifier._remove_spacing(line)
+        line = line.lstrip()
         if line[0] == "-":  # Detect list cases
             line = " " + line[1:]
         if not line.strip():  # The element of the list is below
@@ -284,7 +284,7 @@ class YamlFileModifier:
                 tabs are used.
 
         """
-        tabs_used = any("\t" in line for line in lines)
+        tabs_used = any("\t" in line[: len(line) - len(line.lstrip())] for line in lines)
         spaces_used = any(" " in line for line in lines)
         if tabs_used and spaces_used:
             return "??"
-- 
2.43.0


From 50ce79e59e7aa0e44aeba05f1787cfdac68d3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:27 +0000
Subject: [PATCH 57/64] fix: do not lose the comments of the keys of a YAML
 file that start with a quote, a digit or an underscore

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 273cd75..79d66af 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -335,7 +335,7 @@ class YamlFileModifier:
 
         for idx, line in enumerate(self.lines):
             line_with_no_spacing = self._remove_spacing(line)
-            if len(line_with_no_spacing) > 0 and (line_with_no_spacing[0].isalpha() or line_with_no_spacing[0] == "-"):
+            if len(line_with_no_spacing) > 0 and (line_with_no_spacing[0].isalnum() or line_with_no_spacing[0] in "-_'\""):
                 spaces_or_tabs = self._count_spaces_or_tabs_at_start(line, indentation=indentation)
                 if spaces_or_tabs is None:
                     continue
@@ -416,6 +416,8 @@ class YamlFileModifier:
         new_lines = list(self.lines).copy()
         for comment in reverse_order_comments:
             key = self.prefix + comment.associated_with_key
+            if ":" in key or "#" in key:  # It was within quotes
+                key = "'" + key.replace("'", "''") + "'"
             spacing = comment.spacing
             if comment.must_replace_its_key_as_first_element_of_list:
                 line = new_lines[comment.key_line]
-- 
2.43.0


From 915a49676e82fc5d9d4893d88f8a419077b8a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:47 +0000
Subject: [PATCH 58/64] fix: do not describe the classes named as a builtin one
 as if they were it

---
 .../simple_data_type_tree/instance_data_type_tree.py        | 6 +-----
 .../simple_data_type_tree/type_data_type_tree.py            | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py
index ddb98ac..8043228 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py
@@ -34,8 +34,4 @@ class InstanceDataTypeTree(SimpleDataTypeTree):
         return
 
     def _is_builtin_class(self) -> bool:
-        try:
-            cls = getattr(builtins, self.holding_type.__name__)
-            return isinstance(cls, type)
-        except AttributeError:
-            return False
+        return getattr(builtins, self.holding_type.__name__, None) is self.holding_type
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
index 81deb0f..7c9c23b 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
@@ -22,8 +22,4 @@ class TypeDataTypeTree(SimpleDataTypeTree):
         return "type", self.data
 
     def is_builtin_class(self) -> bool:
-        try:
-            cls = getattr(builtins, self.data.__name__)
-            return isinstance(cls, type)
-        except AttributeError:
-            return False
+        return getattr(builtins, self.data.__name__, None) is self.data
-- 
2.43.0


From f2a902d36ff334f2aeea81461118cf4bbb7b2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:47 +0000
Subject: [PATCH 59/64] fix: do not describe the instances of subclasses of
 frozenset as sets

---
 .../data_type_tree/generic_type/set_data_type_tree.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index c96dcfb..17ca885 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -26,7 +26,7 @@ class SetDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_str_top_node(self) -> str:
-        container: Literal["FrozenSet", "set"] = "FrozenSet" if self.holding_type is frozenset else "set"
+        container: Literal["FrozenSet", "set"] = "FrozenSet" if issubclass(self.holding_type, frozenset) else "set"
         self.imports.add(container).add("TypeAlias")
 
         if container == "FrozenSet":
@@ -38,7 +38,7 @@ class SetDataTypeTree(GenericDataTypeTree):
         hashes: Set[object] = set()
         for child in self:
             hashes.add(child._get_hash())
-        return type(self), self.holding_type is frozenset, frozenset(hashes)
+        return type(self), issubclass(self.holding_type, frozenset), frozenset(hashes)
 
     @override
     def __iter__(self) -> "Self":
-- 
2.43.0


From 9e29dc02504b3003f5b7b0818923a4467c0d892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:47 +0000
Subject: [PATCH 60/64] fix: do not describe the dictionaries whose class is
 named mappingproxy as MappingProxyType

---
 .../data_type_tree/generic_type/mapping_data_type_tree.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index cacff7a..23105e8 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -1,5 +1,6 @@
 import re
 from collections import defaultdict
+from types import MappingProxyType
 from typing import Dict, Final, Hashable, Iterator, List, Literal, Mapping, Set, Type
 
 from typing_extensions import Self, override
@@ -76,7 +77,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         container: Literal["dict", "TypedDict", "MappingProxyType", "Mapping"] = (
             "dict" if self.strategies.dict_strategy == "TypedDict" else self.strategies.dict_strategy
         )
-        if self.holding_type.__name__ == "mappingproxy":
+        if self.holding_type is MappingProxyType:
             container = "MappingProxyType"
             self.imports.add(container)
         else:
-- 
2.43.0


From 83db78d0787e67f13e9e539edff5f1a97b66447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:47 +0000
Subject: [PATCH 61/64] fix: merge TypedDicts such as those sharing 29 of 50
 keys when 58% is enough

---
 .../data_type_tree/generic_type/dict_data_type_tree.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 745ccd7..5aa5fd7 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -45,7 +45,7 @@ class DictMetadataComparison:
         total_keys = len(self.common_keys) + len(self.non_common_keys)
         if total_keys == 0:
             return 0
-        return int(100 * (len(self.common_keys) / total_keys))
+        return 100 * len(self.common_keys) // total_keys
 
     @property
     def all_corresponding_value_types_are_same_type(self) -> bool:
-- 
2.43.0


From 9991d9b7002ebafe5c43c66802240316855846ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:56 +0000
Subject: [PATCH 62/64] fix: reject the class names that Python would alter, as
 their type hints could not be imported

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 6a6d4d9..066ebcb 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -2,6 +2,7 @@ import ast
 import os
 import re
 import shutil
+import unicodedata
 import uuid
 from pathlib import Path
 from typing import (
@@ -131,7 +132,11 @@ class LazyTypeHintLive(LazyTypeHintABC):
         class_name: str,
         **kwargs: Any,
     ) -> ObjectT:
-        if not is_string_python_keyword_compatible(class_name):
+        if (
+            not is_string_python_keyword_compatible(class_name)
+            # Python would alter the name: the file that holds the class could not be imported
+            or unicodedata.normalize("NFKC", class_name) != class_name
+        ):
             raise LazyTypeHintLiveError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
-- 
2.43.0


From e3d3218ad170572c8965cd079fcc86d0e3498ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:16 +0000
Subject: [PATCH 63/64] fix: merge the TypedDicts whose values have the same
 type although their classes differ

---
 .../data_type_tree/generic_type/set_and_sequence_operations.py  | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 7e12f89..f1dbaf7 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -123,8 +123,6 @@ class SetAndSequenceOperations:
         comparison = DictDataTypeTree.compare_multiple_typed_dicts_based_trees(*children)
         if comparison.percentage_similarity < merge_if_similarity_above:
             return tuple(children)
-        if not comparison.all_corresponding_value_types_are_same_type:
-            return tuple(children)
         if not DictDataTypeTree.have_all_common_children_the_same_type(*children):
             return tuple(children)
 
-- 
2.43.0


From eaa92d64df5226dd28f14aac743663353bc5f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:16 +0000
Subject: [PATCH 64/64] fix: take as the same type the files, and the modules,
 that are described alike

---
 .../simple_data_type_tree/io_data_type_tree.py        | 11 +++++++++--
 .../simple_data_type_tree/module_data_type_tree.py    |  5 +++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
index 71a18b8..6800f17 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
@@ -1,5 +1,5 @@
 import io
-from typing import Literal
+from typing import Hashable, Literal
 
 from typing_extensions import override
 
@@ -11,6 +11,13 @@ class IoDataTypeTree(SimpleDataTypeTree):
 
     @override
     def _get_str_top_node(self) -> str:
-        container: Literal["TextIO", "BinaryIO"] = "TextIO" if isinstance(self.data, io.TextIOBase) else "BinaryIO"
+        container = self._get_container()
         self.imports.add(container).add("TypeAlias")
         return f"{self.name}: TypeAlias = {container}"
+
+    @override
+    def _get_hash(self) -> Hashable:
+        return self._get_container()
+
+    def _get_container(self) -> Literal["TextIO", "BinaryIO"]:
+        return "TextIO" if isinstance(self.data, io.TextIOBase) else "BinaryIO"
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/module_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/module_data_type_tree.py
index 0878ae0..28f2b37 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/module_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/module_data_type_tree.py
@@ -1,4 +1,5 @@
 from types import ModuleType
+from typing import Hashable
 
 from typing_extensions import override
 
@@ -12,3 +13,7 @@ class ModuleTypeDataTypeTree(SimpleDataTypeTree):
     def _get_str_top_node(self) -> str:
         self.imports.add("ModuleType").add("TypeAlias")
         return f"{self.name}: TypeAlias = ModuleType"
+
+    @override
+    def _get_hash(self) -> Hashable:
+        return ModuleType.__name__
-- 
2.43.0

