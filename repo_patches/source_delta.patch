From 1ad675a5d7ed8115e6a6d4b9238c769bd67cb100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 01/20] fix: hdf5 Bytes: changing a value must not truncate or
 pad it

The dataset keeps its size once created, so writing a longer value into it
silently dropped the tail, a shorter one was padded with NULs, and the empty
value could not be stored at all. Store the bytes as an uint8 array and replace
the dataset, as the other item nodes do. Existing files stay readable.
---
 dsch/backends/hdf5.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 1f37986..250e7cb 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -126,11 +126,7 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        if self._storage:
-            self._storage[()] = np.void(new_value)
-        else:
-            self._storage = self._parent.create_dataset(
-                self._dataset_name, data=np.void(new_value))
+        super().replace(np.frombuffer(new_value, dtype='uint8'))
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From fe1dea4f9180567f685ae37546fdb40ad9b68267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 02/20] fix: npz Bytes: keep the empty value

NumPy's bytes dtype has no zero-length item, so b'' was stored as b'\\x00'.
Existing files stay readable.
---
 dsch/backends/npz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index b7901c4..490066f 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -60,7 +60,7 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array(new_value, dtype='bytes')
+        self._storage = np.frombuffer(new_value, dtype='uint8')
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 37f480e82014819349e4de45e46a9e5495b605bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 03/20] fix: Array validation: keep depends_on aligned with the
 dimensions

A None entry (no independent variable for that dimension) was dropped, so the
following independent variables were compared to the wrong dimension.
---
 dsch/data.py   | 2 ++
 dsch/schema.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/dsch/data.py b/dsch/data.py
index 4616bdc..50461ad 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -314,6 +314,8 @@ class Array(ItemNode):
             if node_name:
                 independent_values.append(getattr(self.parent, node_name)
                                           .value)
+            else:
+                independent_values.append(None)
         self.schema_node.validate(self.value, independent_values)
 
 
diff --git a/dsch/schema.py b/dsch/schema.py
index ce3cf71..510fafb 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -276,6 +276,9 @@ class Array(SchemaNode):
 
         if self.depends_on:
             for dim, value in zip(test_data.shape, independent_values):
+                if value is None:
+                    # No independent variable for this dimension.
+                    continue
                 if value.ndim > 1:
                     raise ValueError('Independent variable array must be '
                                      'one-dimensional.')
-- 
2.43.0


From a163c86ecf149a39aa08cf59b1992cab3f1f2d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 04/20] fix: schema validation: a maximum of 0 is a constraint

max_length=0 (and a 0 in max_shape) disabled the check, as if no maximum had
been given.
---
 dsch/schema.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 510fafb..685228f 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -257,7 +257,7 @@ class Array(SchemaNode):
                                   self.ndim, test_data.ndim)
         if self.max_shape:
             for nominal, actual in zip(self.max_shape, test_data.shape):
-                if nominal and actual > nominal:
+                if nominal is not None and actual > nominal:
                     raise ValidationError('Maximum array shape exceeded.',
                                           self.max_shape, test_data.shape)
         if self.min_shape:
@@ -340,7 +340,7 @@ class Bytes(SchemaNode):
         if not isinstance(test_data, bytes):
             raise ValidationError('Invalid type/value.', 'bytes',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum bytes length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -660,7 +660,7 @@ class List(SchemaNode):
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
         """
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum list length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -818,7 +818,7 @@ class String(SchemaNode):
         if not isinstance(test_data, str):
             raise ValidationError('Invalid type/value.', 'str',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum string length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
-- 
2.43.0


From 5152f083839c41df9efbd939433f369d2f33c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 05/20] fix: load_from: copy empty nodes, too

Copying a partially filled storage raised NodeEmptyError.
---
 dsch/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 50461ad..781b3c1 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -159,7 +159,10 @@ class ItemNode:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
-        self.replace(source_node.value)
+        if source_node.empty:
+            self.clear()
+        else:
+            self.replace(source_node.value)
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 22ad50adb149fb092e60aab123b98d2b10bfa893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 06/20] fix: List.load_from: replace the previous entries

Loading into a non-empty list overwrote its first entries and left surplus
empty ones at its end.
---
 dsch/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsch/data.py b/dsch/data.py
index 781b3c1..56f88c2 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -799,6 +799,7 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
             self[idx].load_from(subnode)
-- 
2.43.0


From b3f6c4375657880449e14196f7a53a4b18026fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 07/20] fix: load_from: do not share arrays between source and
 copy

With the in-memory, npz and mat backends, changing elements of a copied array
also changed the source.
---
 dsch/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 56f88c2..99aed8c 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -11,6 +11,7 @@ implementing the respective functionality. The classes in this module provide
 common functionality and are intended to be used as base classes.
 Different backends are implemented in the :mod:`dsch.backends` package.
 """
+import copy
 import datetime
 import importlib
 
@@ -162,7 +163,8 @@ class ItemNode:
         if source_node.empty:
             self.clear()
         else:
-            self.replace(source_node.value)
+            # In-memory nodes share their value object, so hand over a copy.
+            self.replace(copy.copy(source_node.value))
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 25df5d2c284f0065f077f33b5df769bf916f4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 08/20] fix: PseudoStorage: do not keep a storage with a
 rejected schema

After a failed open, the storage attribute still held the loaded storage.
---
 dsch/frontend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsch/frontend.py b/dsch/frontend.py
index 0ea1029..239de3d 100644
--- a/dsch/frontend.py
+++ b/dsch/frontend.py
@@ -255,8 +255,9 @@ class PseudoStorage:
             raise RuntimeError('PseudoStorage is already open.')
         if isinstance(self._data_storage, str):
             if os.path.exists(self._data_storage):
-                self.storage = load(self._data_storage)
-                self._verify_schema(self.storage.schema_node)
+                storage = load(self._data_storage)
+                self._verify_schema(storage.schema_node)
+                self.storage = storage
             else:
                 self.storage = create(self._data_storage,
                                       schema_node=self._schema_node)
-- 
2.43.0


From 6c7afc4f086e3a8f73e30aaea33405bdc0c74cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 09/20] fix: schema node equality: ignore tuple/list
 differences

Tuples in the node configuration come back from JSON as lists, so a loaded
schema did not compare equal to the one it was created with.
---
 dsch/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 685228f..79caf91 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -49,10 +49,10 @@ class SchemaNode:
     def __eq__(self, other):
         """Implement the == operator for schema nodes."""
         try:
-            other_dict = other.to_dict()
+            other_json = other.to_json()
         except AttributeError:
             return False
-        return self.to_dict() == other_dict
+        return self.to_json() == other_json
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From b40498b55d1afdd71dace444f70d45a298276d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 10/20] fix: schema: support numpy.dtype objects as dtype

The documented numpy.dtype values were not JSON serializable, so the node could
neither be hashed nor stored.
---
 dsch/schema.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 79caf91..f2e3bbf 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -211,7 +211,7 @@ class Array(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_shape': self.max_shape,
             'min_shape': self.min_shape,
@@ -728,7 +728,7 @@ class Scalar(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_value': self.max_value,
             'min_value': self.min_value,
@@ -882,6 +882,18 @@ class Time(SchemaNode):
                                   type(test_data))
 
 
+def _dtype_name(dtype):
+    """Return the JSON-compatible representation of a NumPy data type.
+
+    Args:
+        dtype (numpy.dtype or str): NumPy data type.
+
+    Returns:
+        str: ``dtype`` itself if it is a string, its type string otherwise.
+    """
+    return dtype if isinstance(dtype, str) else np.dtype(dtype).str
+
+
 def node_from_dict(node_dict):
     """Create a new node from its ``node_dict``.
 
-- 
2.43.0


From c1e1b02430058a23c2a60e3e35244a772a7f9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 11/20] fix: npz: always save to the given storage path

With a path not ending in '.npz', data was written to (or over) another file.
---
 dsch/backends/npz.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 490066f..a6b550e 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -5,6 +5,7 @@ This backend provides support for NumPy's npz format. For details, see
 enhancement proposal <https://docs.scipy.org/doc/numpy/neps/npy-format.html>`_.
 """
 import datetime
+import io
 
 import numpy as np
 
@@ -266,8 +267,12 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': output_data})
             else:
                 store_data = {}
-        np.savez(self.storage_path, _schema=self.schema_node.to_json(),
-                 **store_data)
+        # Given a path, NumPy would append '.npz' to it if missing. The file is
+        # only opened after serialization, so it is kept if that fails.
+        buffer = io.BytesIO()
+        np.savez(buffer, _schema=self.schema_node.to_json(), **store_data)
+        with open(self.storage_path, 'wb') as file_:
+            file_.write(buffer.getbuffer())
 
 
 class String(_ItemNode):
-- 
2.43.0


From 7d04fd0a2737288a799b554ff53922d0f07e7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 12/20] fix: do not apply set_on_create when loading a storage

Empty nodes of a loaded storage were filled with the time of loading, so stored
data changed by merely opening it.
---
 dsch/backends/hdf5.py | 4 ++++
 dsch/backends/mat.py  | 6 ++++++
 dsch/backends/npz.py  | 3 +++
 dsch/data.py          | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 250e7cb..627894d 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -186,6 +186,8 @@ class Compilation(data.Compilation):
                 new_params_sub = {'name': node_name, 'parent': data_storage}
                 self._subnodes[node_name] = data.data_node_from_schema(
                     subnode, self.__module__, self, new_params=new_params_sub)
+                # The node was stored empty, so drop any default value.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
@@ -380,6 +382,8 @@ class Storage(storage.FileStorage):
                 self.data = data.data_node_from_schema(self.schema_node,
                                                        self.__module__, None,
                                                        new_params=new_params)
+                # The node was stored empty, so drop any default value.
+                self.data.clear()
                 return
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 8b89110..788f924 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -55,6 +55,9 @@ class Compilation(npz.Compilation):
             self._subnodes[node_name] = data.data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # The node was stored empty, so drop any default value.
+                self._subnodes[node_name].clear()
 
 
 class Date(npz.Date):
@@ -135,6 +138,9 @@ class Storage(npz.Storage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            # The node was stored empty, so drop any default value.
+            self.data.clear()
 
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index a6b550e..0106406 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -249,6 +249,9 @@ class Storage(storage.FileStorage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            # The node was stored empty, so drop any default value.
+            self.data.clear()
 
     def _new(self):
         """Create a new file at :attr:`storage_path`."""
diff --git a/dsch/data.py b/dsch/data.py
index 99aed8c..d60f0a2 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -474,6 +474,9 @@ class Compilation:
             self._subnodes[node_name] = data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # The node was stored empty, so drop any default value.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
-- 
2.43.0


From ccc53a7e0dbf7c481cd05df8abda172c9113eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 13/20] fix: mat: do not use np.object, which NumPy has removed

Lists could neither be saved nor loaded.
---
 dsch/backends/mat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 788f924..1e524c9 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -90,7 +90,7 @@ class List(npz.List):
         # If the list layer got squeezed away, we need to re-introduce it here
         if not isinstance(data_storage, np.ndarray) \
                 or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=np.object)
+            data_storage = np.array([data_storage], dtype=object)
 
         for field in data_storage:
             subnode = data.data_node_from_schema(self.schema_node.subnode,
@@ -102,12 +102,12 @@ class List(npz.List):
         """Export the node data as a data storage object.
 
         For the mat backend, List data is represented as a NumPy object array,
-        i.e. a :class:`numpy.ndarray` with ``dtype=numpy.object``.
+        i.e. a :class:`numpy.ndarray` with ``dtype=object``.
 
         Returns:
             dict: Data storage object with the node's data.
         """
-        data_storage = np.zeros((len(self._subnodes),), dtype=np.object)
+        data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
             data_storage[idx] = node.save()
         return data_storage
-- 
2.43.0


From 390a03c2096cc2392365cac4fe0fb0b1da683bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 14/20] fix: mat: keep array shapes and list layers when
 loading

Loading with squeeze_me=True, without knowledge of the schema, removed
dimensions of arrays and list layers with a single entry. Bytes values and
empty strings could not be read at all.
---
 dsch/backends/mat.py | 96 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 74 insertions(+), 22 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 1e524c9..4970533 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -5,17 +5,58 @@ from . import npz
 from .. import data, schema
 
 
+class _ItemNode:
+    """Common functionality of item nodes for the mat backend."""
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        MATLAB only knows arrays with two or more dimensions, so the dimensions
+        added when saving must be removed.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        super()._init_from_storage(np.squeeze(data_storage))
+
+
 class Array(npz.Array):
     """Array-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        In contrast to the other item nodes, only the dimensions added when
+        saving may be removed here, since the shape is part of the data.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        if self.schema_node.ndim < 2 and data_storage.shape[:-1] in ((1,), (0,)):
+            data_storage = data_storage.reshape(
+                (-1,) if self.schema_node.ndim else ())
+        if np.dtype(self.schema_node.dtype) == bool:
+            # MATLAB's logical arrays are loaded as uint8.
+            data_storage = data_storage.astype(bool)
+        super()._init_from_storage(data_storage)
 
 
 class Bytes(npz.Bytes):
     """Bytes-type data node for the mat backend."""
-    pass
 
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
 
-class Bool(npz.Bool):
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        super()._init_from_storage(np.ravel(data_storage))
+
+
+class Bool(_ItemNode, npz.Bool):
     """Bool-type data node for the mat backend."""
     pass
 
@@ -37,11 +78,13 @@ class Compilation(npz.Compilation):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # For Compilation inside Compilation, scipy.io.loadmat seems to wrap
-        # the inner Compilation in an additional scalar ndarray with dtype
-        # object. This must be ignored, if present.
-        if data_storage.shape == ():
-            data_storage = data_storage[()]
+        # MATLAB structs are arrays with a single record.
+        data_storage = np.squeeze(data_storage)[()]
+        if data_storage is None:
+            # A struct without any fields, i.e. nothing but empty sub-nodes.
+            self._init_new(None)
+            self.clear()
+            return
 
         for node_name, subnode in self.schema_node.subnodes.items():
             # Work around the fact that we cannot use
@@ -60,12 +103,12 @@ class Compilation(npz.Compilation):
                 self._subnodes[node_name].clear()
 
 
-class Date(npz.Date):
+class Date(_ItemNode, npz.Date):
     """Date-type data node for the mat backend."""
     pass
 
 
-class DateTime(npz.DateTime):
+class DateTime(_ItemNode, npz.DateTime):
     """DateTime-type data node for the mat backend."""
     pass
 
@@ -87,12 +130,7 @@ class List(npz.List):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # If the list layer got squeezed away, we need to re-introduce it here
-        if not isinstance(data_storage, np.ndarray) \
-                or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=object)
-
-        for field in data_storage:
+        for field in np.ravel(data_storage):
             subnode = data.data_node_from_schema(self.schema_node.subnode,
                                                  self.__module__, self,
                                                  data_storage=field)
@@ -113,7 +151,7 @@ class List(npz.List):
         return data_storage
 
 
-class Scalar(npz.Scalar):
+class Scalar(_ItemNode, npz.Scalar):
     """Scalar-type data node for the mat backend."""
     pass
 
@@ -132,8 +170,11 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path, squeeze_me=True)
-        self.schema_node = schema.node_from_json(file_['schema'])
+        # Do not use squeeze_me=True: Without knowledge of the schema, it also
+        # removes dimensions of arrays and list layers with a single entry.
+        file_ = sio.loadmat(self.storage_path)
+        self.schema_node = schema.node_from_json(str(np.squeeze(
+            file_['schema'])))
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
@@ -151,11 +192,22 @@ class Storage(npz.Storage):
         sio.savemat(self.storage_path, store_data)
 
 
-class String(npz.String):
+class String(_ItemNode, npz.String):
     """String-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        if data_storage.size == 0:
+            # Empty strings are loaded as arrays without elements.
+            data_storage = np.array('')
+        super()._init_from_storage(data_storage)
 
 
-class Time(npz.Time):
+class Time(_ItemNode, npz.Time):
     """Time-type data node for the mat backend."""
     pass
-- 
2.43.0


From bc7c33987a05d27fc3ede30b57b060d77becc4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 15/20] fix: mat: always save to the given storage path

---
 dsch/backends/mat.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 4970533..441c127 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -1,3 +1,5 @@
+import io
+
 import numpy as np
 import scipy.io as sio
 
@@ -189,7 +191,12 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data)
+        # Given a path, SciPy would append '.mat' to it if missing. The file is
+        # only opened after serialization, so it is kept if that fails.
+        buffer = io.BytesIO()
+        sio.savemat(buffer, store_data)
+        with open(self.storage_path, 'wb') as file_:
+            file_.write(buffer.getbuffer())
 
 
 class String(_ItemNode, npz.String):
-- 
2.43.0


From 79d8470d400d86fedb6b38531df371b2d00fbf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 16/20] fix: keep the position of list items when others are
 empty

npz stored empty items as None, resulting in a file that cannot be loaded,
and loading an HDF5 list with a gap in the numbering raised KeyError.
---
 dsch/backends/hdf5.py |  2 +-
 dsch/backends/npz.py  |  3 ++-
 dsch/data.py          | 18 ++++++++++++------
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 627894d..96a0252 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -308,8 +308,8 @@ class List(data.List):
             data_storage (h5py.Dataset): Data storage object to be
                 imported.
         """
-        super()._init_from_storage(data_storage)
         self._storage = data_storage
+        super()._init_from_storage(data_storage)
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 0106406..d7a8fbb 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -183,7 +183,8 @@ class List(data.List):
         """
         data_storage = {}
         for idx, node in enumerate(self._subnodes):
-            data_storage['item_{}'.format(idx)] = node.save()
+            if not node.empty:
+                data_storage['item_{}'.format(idx)] = node.save()
         return data_storage
 
 
diff --git a/dsch/data.py b/dsch/data.py
index d60f0a2..bba2109 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -775,12 +775,18 @@ class List:
         Args:
             data_storage (dict): Backend-specific data storage object to load.
         """
-        for idx in range(len(data_storage)):
-            node_storage = data_storage['item_{}'.format(idx)]
-            subnode = data_node_from_schema(self.schema_node.subnode,
-                                            self.__module__, self,
-                                            data_storage=node_storage)
-            self._subnodes.append(subnode)
+        # Empty items are not stored, so there can be gaps in the numbering.
+        indices = [int(name[len('item_'):]) for name in data_storage]
+        for idx in range(max(indices, default=-1) + 1):
+            if idx in indices:
+                node_storage = data_storage['item_{}'.format(idx)]
+                subnode = data_node_from_schema(self.schema_node.subnode,
+                                                self.__module__, self,
+                                                data_storage=node_storage)
+                self._subnodes.append(subnode)
+            else:
+                self.append()
+                self._subnodes[-1].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
-- 
2.43.0


From c2df805ea2f74b28071eeedfb13456145de0bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 17/20] fix: support fields named like node attributes in
 copies and depends_on

A field called e.g. 'empty' or 'complete' could not be copied, because
attribute access found the attribute of the compilation node instead.
---
 dsch/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index bba2109..988174d 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -317,7 +317,8 @@ class Array(ItemNode):
         node_names = self.schema_node.depends_on or []
         for node_name in node_names:
             if node_name:
-                independent_values.append(getattr(self.parent, node_name)
+                # Attribute access would prefer attributes of the node itself.
+                independent_values.append(self.parent._subnodes[node_name]
                                           .value)
             else:
                 independent_values.append(None)
@@ -503,7 +504,8 @@ class Compilation:
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
         for key, subnode in self._subnodes.items():
-            subnode.load_from(getattr(source_node, key))
+            # Attribute access would prefer attributes of the node itself.
+            subnode.load_from(source_node._subnodes[key])
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 3e4c6471ed08e57ea19f0c443b5d481fb13cb2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 18/20] fix: schema node equality: support comparing to any
 object

Comparing to a schema node class or to an unrelated object with a to_dict
method raised an exception.
---
 dsch/schema.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index f2e3bbf..9f6bf72 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -48,11 +48,9 @@ class SchemaNode:
 
     def __eq__(self, other):
         """Implement the == operator for schema nodes."""
-        try:
-            other_json = other.to_json()
-        except AttributeError:
+        if not isinstance(other, SchemaNode):
             return False
-        return self.to_json() == other_json
+        return self.to_json() == other.to_json()
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From 626b622c30c51ef96151d7e76dbdb1b744cb41ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 19/20] fix: mat: loaded arrays do not share memory with other
 objects

---
 dsch/backends/mat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 441c127..7b6ffe5 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -42,7 +42,9 @@ class Array(npz.Array):
         if np.dtype(self.schema_node.dtype) == bool:
             # MATLAB's logical arrays are loaded as uint8.
             data_storage = data_storage.astype(bool)
-        super()._init_from_storage(data_storage)
+        # SciPy may return writable views of the interpreter's shared constants
+        # for single bytes, so a copy is needed to be able to change elements.
+        super()._init_from_storage(np.array(data_storage))
 
 
 class Bytes(npz.Bytes):
-- 
2.43.0


From ae723214c223aace2efdc6327658865eaa422f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 20/20] fix: copying a list into itself must not empty it

---
 dsch/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsch/data.py b/dsch/data.py
index 988174d..5922c2a 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -812,6 +812,9 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        if source_node is self:
+            # Clearing this list would lose what is to be copied.
+            return
         self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
-- 
2.43.0

