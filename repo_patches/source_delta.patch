From 155b91ebdb5e0a1030b57f6aae95e869093d7bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:58 +0000
Subject: [PATCH 01/46] fix: mat: use object instead of np.object, which numpy
 1.24 removed

---
 dsch/backends/mat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 8b89110..c9fa766 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -87,7 +87,7 @@ class List(npz.List):
         # If the list layer got squeezed away, we need to re-introduce it here
         if not isinstance(data_storage, np.ndarray) \
                 or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=np.object)
+            data_storage = np.array([data_storage], dtype=object)
 
         for field in data_storage:
             subnode = data.data_node_from_schema(self.schema_node.subnode,
@@ -99,12 +99,12 @@ class List(npz.List):
         """Export the node data as a data storage object.
 
         For the mat backend, List data is represented as a NumPy object array,
-        i.e. a :class:`numpy.ndarray` with ``dtype=numpy.object``.
+        i.e. a :class:`numpy.ndarray` with ``dtype=object``.
 
         Returns:
             dict: Data storage object with the node's data.
         """
-        data_storage = np.zeros((len(self._subnodes),), dtype=np.object)
+        data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
             data_storage[idx] = node.save()
         return data_storage
-- 
2.43.0


From 02abd0665d83d616d303a8946a73af5479ee928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 02/46] fix: mat: keep array shapes, one-element lists and
 empty strings on load

Loading with squeeze_me=True also removed array dimensions and list levels of
size one, so saved data could not be restored.
---
 dsch/backends/mat.py | 87 ++++++++++++++++++++++++++++++++------------
 1 file changed, 64 insertions(+), 23 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index c9fa766..7b4766c 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -5,17 +5,50 @@ from . import npz
 from .. import data, schema
 
 
+class _ItemNode(npz._ItemNode):
+    """Common base class for data nodes for the mat backend."""
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        MATLAB wraps all values in (at least) two-dimensional arrays, so the
+        additional dimensions must be removed.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data
+                storage object to load.
+        """
+        super()._init_from_storage(np.squeeze(data_storage))
+
+
 class Array(npz.Array):
     """Array-type data node for the mat backend."""
-    pass
 
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
 
-class Bytes(npz.Bytes):
+        MATLAB does not support arrays with less than two dimensions, so the
+        original shape of such arrays must be restored. All other arrays keep
+        their shape, including dimensions of size one.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data
+                storage object to load.
+        """
+        if self.schema_node.ndim < 2:
+            data_storage = np.squeeze(data_storage)
+            if self.schema_node.ndim == 1 and (data_storage.ndim == 0 or
+                                               data_storage.size == 0):
+                data_storage = data_storage.reshape(-1)
+        super()._init_from_storage(data_storage)
+
+
+class Bytes(_ItemNode, npz.Bytes):
     """Bytes-type data node for the mat backend."""
     pass
 
 
-class Bool(npz.Bool):
+class Bool(_ItemNode, npz.Bool):
     """Bool-type data node for the mat backend."""
     pass
 
@@ -37,19 +70,17 @@ class Compilation(npz.Compilation):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # For Compilation inside Compilation, scipy.io.loadmat seems to wrap
-        # the inner Compilation in an additional scalar ndarray with dtype
-        # object. This must be ignored, if present.
-        if data_storage.shape == ():
-            data_storage = data_storage[()]
+        # A struct is always loaded as an array of structs with one element.
+        data_storage = np.ravel(data_storage)[0]
 
         for node_name, subnode in self.schema_node.subnodes.items():
             # Work around the fact that we cannot use
             # data_storage.get(node_name) because data_storage is not a dict,
             # but a numpy.ndarray.
+            # Structs without any fields are loaded as None.
             try:
                 node_storage = data_storage[node_name]
-            except ValueError:
+            except (TypeError, ValueError):
                 node_storage = None
 
             self._subnodes[node_name] = data.data_node_from_schema(
@@ -57,12 +88,12 @@ class Compilation(npz.Compilation):
                 data_storage=node_storage)
 
 
-class Date(npz.Date):
+class Date(_ItemNode, npz.Date):
     """Date-type data node for the mat backend."""
     pass
 
 
-class DateTime(npz.DateTime):
+class DateTime(_ItemNode, npz.DateTime):
     """DateTime-type data node for the mat backend."""
     pass
 
@@ -84,12 +115,8 @@ class List(npz.List):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # If the list layer got squeezed away, we need to re-introduce it here
-        if not isinstance(data_storage, np.ndarray) \
-                or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=object)
-
-        for field in data_storage:
+        # Cell arrays are always loaded as two-dimensional arrays.
+        for field in np.ravel(data_storage):
             subnode = data.data_node_from_schema(self.schema_node.subnode,
                                                  self.__module__, self,
                                                  data_storage=field)
@@ -110,7 +137,7 @@ class List(npz.List):
         return data_storage
 
 
-class Scalar(npz.Scalar):
+class Scalar(_ItemNode, npz.Scalar):
     """Scalar-type data node for the mat backend."""
     pass
 
@@ -129,8 +156,10 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path, squeeze_me=True)
-        self.schema_node = schema.node_from_json(file_['schema'])
+        # Do not let SciPy squeeze the data, because this also removes array
+        # dimensions and list levels that just happen to be of size one.
+        file_ = sio.loadmat(self.storage_path)
+        self.schema_node = schema.node_from_json(file_['schema'].item())
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
@@ -145,11 +174,23 @@ class Storage(npz.Storage):
         sio.savemat(self.storage_path, store_data)
 
 
-class String(npz.String):
+class String(_ItemNode, npz.String):
     """String-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Empty strings are loaded as arrays without any elements.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data
+                storage object to load.
+        """
+        if data_storage.size == 0:
+            data_storage = np.array('', dtype='U')
+        super()._init_from_storage(data_storage)
 
 
-class Time(npz.Time):
+class Time(_ItemNode, npz.Time):
     """Time-type data node for the mat backend."""
     pass
-- 
2.43.0


From 535e81d3e71c3587f2a62cbb744ab474b679bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 03/46] fix: mat: make Bytes nodes loadable by storing them as
 uint8 values

Byte strings were written as text, which cannot be converted back to bytes when
loading and does not preserve arbitrary byte values.
---
 dsch/backends/mat.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 7b4766c..b00edd6 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -45,7 +45,28 @@ class Array(npz.Array):
 
 class Bytes(_ItemNode, npz.Bytes):
     """Bytes-type data node for the mat backend."""
-    pass
+
+    def save(self):
+        """Export the node data as a data storage object.
+
+        MATLAB has no byte strings and SciPy would write them as text, which
+        does not preserve all byte values. Therefore, the data is represented
+        as an array of ``uint8`` values.
+
+        Returns:
+            numpy.ndarray: Data storage object with the node's data.
+        """
+        if self.empty:
+            return None
+        return np.frombuffer(self.value, dtype='uint8')
+
+    def _value(self):
+        """Return the actual node data, independent of the backend in use.
+
+        Returns:
+            Node data.
+        """
+        return self._storage.tobytes()
 
 
 class Bool(_ItemNode, npz.Bool):
-- 
2.43.0


From 25c8f1102b6529b6b7ffe7e29920d3c155e7f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 04/46] fix: mat: restore bool and float16 array dtypes on load

---
 dsch/backends/mat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index b00edd6..5f49187 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -40,6 +40,11 @@ class Array(npz.Array):
             if self.schema_node.ndim == 1 and (data_storage.ndim == 0 or
                                                data_storage.size == 0):
                 data_storage = data_storage.reshape(-1)
+        # MATLAB files provide logical values as uint8 and do not support half
+        # precision, which SciPy stores as double instead.
+        if (data_storage.dtype, np.dtype(self.schema_node.dtype)) in (
+                ('uint8', 'bool'), ('float64', 'float16')):
+            data_storage = data_storage.astype(self.schema_node.dtype)
         super()._init_from_storage(data_storage)
 
 
-- 
2.43.0


From 6e70a4b42d2484e39eccf42b946c8e4da4750ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 05/46] fix: npz: do not turn empty bytes into a null byte

---
 dsch/backends/npz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index b7901c4..8203f81 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -60,7 +60,8 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array(new_value, dtype='bytes')
+        # A scalar NumPy bytes value cannot be empty, so use an empty array.
+        self._storage = np.array(new_value or [], dtype='bytes')
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 548fcd30155cade492c0916644fa966ebfbf7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 06/46] fix: hdf5: do not truncate or pad Bytes values when
 replacing them

Also support empty byte strings.
---
 dsch/backends/hdf5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 1f37986..7a087d7 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -126,11 +126,11 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        if self._storage:
-            self._storage[()] = np.void(new_value)
-        else:
-            self._storage = self._parent.create_dataset(
-                self._dataset_name, data=np.void(new_value))
+        # The dataset's size is fixed, so it must always be re-created. HDF5
+        # does not support opaque values of size zero, so use an empty array to
+        # represent empty bytes.
+        super().replace(np.void(new_value) if new_value else
+                        np.empty((0,), dtype='V1'))
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 989c81b1468e6f6f99f1f684afcf8227fef4f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 07/46] fix: schema: enforce maximum length and shape
 constraints of zero

---
 dsch/schema.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index ce3cf71..3a5a95a 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -257,7 +257,7 @@ class Array(SchemaNode):
                                   self.ndim, test_data.ndim)
         if self.max_shape:
             for nominal, actual in zip(self.max_shape, test_data.shape):
-                if nominal and actual > nominal:
+                if nominal is not None and actual > nominal:
                     raise ValidationError('Maximum array shape exceeded.',
                                           self.max_shape, test_data.shape)
         if self.min_shape:
@@ -337,7 +337,7 @@ class Bytes(SchemaNode):
         if not isinstance(test_data, bytes):
             raise ValidationError('Invalid type/value.', 'bytes',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum bytes length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -657,7 +657,7 @@ class List(SchemaNode):
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
         """
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum list length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -815,7 +815,7 @@ class String(SchemaNode):
         if not isinstance(test_data, str):
             raise ValidationError('Invalid type/value.', 'str',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum string length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
-- 
2.43.0


From a9c29b3576406f1ed144dedca17d7d2e1fc00746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 08/46] fix: validate depends_on against the correct dimension
 if others are None

---
 dsch/data.py   | 2 ++
 dsch/schema.py | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 4616bdc..50461ad 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -314,6 +314,8 @@ class Array(ItemNode):
             if node_name:
                 independent_values.append(getattr(self.parent, node_name)
                                           .value)
+            else:
+                independent_values.append(None)
         self.schema_node.validate(self.value, independent_values)
 
 
diff --git a/dsch/schema.py b/dsch/schema.py
index 3a5a95a..fce29b0 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -241,7 +241,8 @@ class Array(SchemaNode):
 
         Args:
             test_data: Data to be validated.
-            independent_values: Values of the independent variables.
+            independent_values: Values of the independent variables. ``None``
+                for dimensions without an independent variable.
 
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
@@ -276,6 +277,8 @@ class Array(SchemaNode):
 
         if self.depends_on:
             for dim, value in zip(test_data.shape, independent_values):
+                if value is None:
+                    continue
                 if value.ndim > 1:
                     raise ValueError('Independent variable array must be '
                                      'one-dimensional.')
-- 
2.43.0


From 59056707fe372d29d5847711adbc31d81c66f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 09/46] fix: load_from: copy empty nodes and replace existing
 list items

Copying a storage with empty fields raised NodeEmptyError, and copying to a
non-empty list added empty items to it instead of replacing its contents.
---
 dsch/data.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index 50461ad..0ba39d4 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -151,7 +151,7 @@ class ItemNode:
         This is effectively a shorthand for ``self.replace(source_node.value)``
         with additional checking of node compatibility. Two nodes are
         considered compatible if their ``schema_node`` attributes are
-        identical.
+        identical. If the source node is empty, this node is cleared.
 
         Args:
             source_node: Data node to copy value from.
@@ -159,7 +159,10 @@ class ItemNode:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
-        self.replace(source_node.value)
+        if source_node.empty:
+            self.clear()
+        else:
+            self.replace(source_node.value)
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
@@ -788,7 +791,8 @@ class List:
     def load_from(self, source_node):
         """Load data by copying from the given source node.
 
-        For Lists, this copies the relevant subnode's data recursively.
+        For Lists, this replaces all existing sub-nodes and copies the relevant
+        subnode's data recursively.
 
         Args:
             source_node: Data node to copy value from.
@@ -796,6 +800,7 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
             self[idx].load_from(subnode)
-- 
2.43.0


From bed13384b58027ecbeafe7e18b1afcaf4e093a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 10/46] fix: load_from: do not share array data between source
 and copy

---
 dsch/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 0ba39d4..da97e9f 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -11,6 +11,7 @@ implementing the respective functionality. The classes in this module provide
 common functionality and are intended to be used as base classes.
 Different backends are implemented in the :mod:`dsch.backends` package.
 """
+import copy
 import datetime
 import importlib
 
@@ -162,7 +163,8 @@ class ItemNode:
         if source_node.empty:
             self.clear()
         else:
-            self.replace(source_node.value)
+            # Do not share mutable values, e.g. arrays, between nodes.
+            self.replace(copy.copy(source_node.value))
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 14dfff53107c2e960683db9bc24482067f9f78bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 11/46] fix: do not apply set_on_create values when loading
 existing storages

---
 dsch/backends/hdf5.py | 4 ++++
 dsch/backends/mat.py  | 5 +++++
 dsch/backends/npz.py  | 3 +++
 dsch/data.py          | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 7a087d7..e6332ae 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -190,6 +190,8 @@ class Compilation(data.Compilation):
                 new_params_sub = {'name': node_name, 'parent': data_storage}
                 self._subnodes[node_name] = data.data_node_from_schema(
                     subnode, self.__module__, self, new_params=new_params_sub)
+                # Existing data is loaded, so do not apply initial values.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
@@ -384,6 +386,8 @@ class Storage(storage.FileStorage):
                 self.data = data.data_node_from_schema(self.schema_node,
                                                        self.__module__, None,
                                                        new_params=new_params)
+                # Existing data is loaded, so do not apply initial values.
+                self.data.clear()
                 return
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 5f49187..565152f 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -112,6 +112,9 @@ class Compilation(npz.Compilation):
             self._subnodes[node_name] = data.data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # Existing data is loaded, so do not apply initial values.
+                self._subnodes[node_name].clear()
 
 
 class Date(_ItemNode, npz.Date):
@@ -190,6 +193,8 @@ class Storage(npz.Storage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            self.data.clear()
 
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 8203f81..f82be24 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -249,6 +249,9 @@ class Storage(storage.FileStorage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            # Existing data is loaded, so do not apply initial values.
+            self.data.clear()
 
     def _new(self):
         """Create a new file at :attr:`storage_path`."""
diff --git a/dsch/data.py b/dsch/data.py
index da97e9f..b3565b6 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -474,6 +474,9 @@ class Compilation:
             self._subnodes[node_name] = data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # Existing data is loaded, so do not apply initial values.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
-- 
2.43.0


From ed2fcb5c0b27c1dee2b9775a77afd72c6bbf4d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 12/46] fix: keep empty list items when saving and loading

---
 dsch/backends/hdf5.py | 15 +++++++++++-
 dsch/backends/mat.py  | 12 ++++++----
 dsch/backends/npz.py  | 56 ++++++++++++++++++++++++++++++++++++-------
 dsch/data.py          | 22 +++++++++++++----
 4 files changed, 87 insertions(+), 18 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index e6332ae..24be9ea 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -294,6 +294,7 @@ class List(data.List):
                                              self.__module__, self,
                                              new_params=new_params)
         self._subnodes.append(subnode)
+        self._save_length()
         if value is not None:
             subnode.replace(value)
 
@@ -302,6 +303,7 @@ class List(data.List):
         for name in self._storage.keys():
             del self._storage[name]
         super().clear()
+        self._save_length()
 
     def _init_from_storage(self, data_storage):
         """Create a new data node from a data storage object.
@@ -312,8 +314,19 @@ class List(data.List):
             data_storage (h5py.Dataset): Data storage object to be
                 imported.
         """
-        super()._init_from_storage(data_storage)
         self._storage = data_storage
+        # Empty items do not have a corresponding storage object, so the number
+        # of storage objects can be less than the number of items.
+        length = max([int(data_storage.attrs.get('dsch_length', 0))] +
+                     [int(name.split('_')[-1]) + 1 for name in data_storage])
+        for idx in range(length):
+            name = 'item_{}'.format(idx)
+            self._load_item(data_storage.get(name, None),
+                            {'name': name, 'parent': data_storage})
+
+    def _save_length(self):
+        """Save the number of items, because empty items are not stored."""
+        self._storage.attrs['dsch_length'] = len(self)
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 565152f..d05f05c 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -146,10 +146,11 @@ class List(npz.List):
         """
         # Cell arrays are always loaded as two-dimensional arrays.
         for field in np.ravel(data_storage):
-            subnode = data.data_node_from_schema(self.schema_node.subnode,
-                                                 self.__module__, self,
-                                                 data_storage=field)
-            self._subnodes.append(subnode)
+            # Empty items are saved as structs without any fields, which are
+            # loaded as None.
+            if field.dtype == object and field.size and field.item(0) is None:
+                field = None
+            self._load_item(field)
 
     def save(self):
         """Export the node data as a data storage object.
@@ -162,7 +163,8 @@ class List(npz.List):
         """
         data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
-            data_storage[idx] = node.save()
+            # Empty items are represented by a struct without any fields.
+            data_storage[idx] = (node.save() if npz._is_present(node) else {})
         return data_storage
 
 
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index f82be24..3b4b784 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -111,7 +111,7 @@ class Compilation(data.Compilation):
         """
         data_storage = {}
         for name, node in [(na, no) for na, no in self._subnodes.items()
-                           if not no.empty]:
+                           if _is_present(no)]:
             data_storage[name] = node.save()
         return data_storage
 
@@ -171,19 +171,33 @@ class DateTime(data.DateTime, _ItemNode):
 class List(data.List):
     """List-type data node for the npz backend."""
 
+    def _load_item(self, node_storage, new_params=None):
+        """Add a sub-node when loading the List from existing data.
+
+        Args:
+            node_storage: Data storage object of the item to load. An empty
+                :class:`dict` if the item is present, but empty.
+            new_params: Backend-specific metadata, used if the item is empty.
+        """
+        if isinstance(node_storage, dict) and not node_storage:
+            node_storage = None
+        super()._load_item(node_storage, new_params)
+
     def save(self):
         """Export the node data as a data storage object.
 
         For :class:`List`, data is represented as a :class:`dict` containing
         the sub-node's data storage objects as values and keys of the form
-        ``item_X``, where ``X`` is the list index.
+        ``item_X``, where ``X`` is the list index. Empty sub-nodes are
+        represented by an empty :class:`dict`.
 
         Returns:
             dict: Data storage object with the node's data.
         """
         data_storage = {}
         for idx, node in enumerate(self._subnodes):
-            data_storage['item_{}'.format(idx)] = node.save()
+            data_storage['item_{}'.format(idx)] = (
+                node.save() if _is_present(node) else {})
         return data_storage
 
 
@@ -265,9 +279,8 @@ class Storage(storage.FileStorage):
         else:
             # If the top-level node is not a Compilation, the default name
             # 'data' is used for the node.
-            output_data = self.data.save()
-            if output_data is not None:
-                store_data = _flatten_dotted({'data': output_data})
+            if _is_present(self.data):
+                store_data = _flatten_dotted({'data': self.data.save()})
             else:
                 store_data = {}
         np.savez(self.storage_path, _schema=self.schema_node.to_json(),
@@ -324,6 +337,26 @@ class Time(data.Time, _ItemNode):
         return datetime.time(*self._storage.tolist())
 
 
+def _is_present(node):
+    """Check whether there is anything to be saved for the given data node.
+
+    In contrast to the node's ``empty`` attribute, this also considers the
+    items of a List that are empty themselves, since they must be saved to keep
+    the List's length.
+
+    Args:
+        node: Data node to check.
+
+    Returns:
+        bool: ``True`` if the node must be saved, ``False`` otherwise.
+    """
+    if isinstance(node, data.List):
+        return len(node) > 0
+    if isinstance(node, data.Compilation):
+        return any(_is_present(subnode) for subnode in node._subnodes.values())
+    return not node.empty
+
+
 def _inflate_dotted(input_dict):
     """Convert flat dict with dotted key notation into nested dict.
 
@@ -335,6 +368,8 @@ def _inflate_dotted(input_dict):
         >>> output_dict == {'spam': {'eggs': 23}, 'answer': 42}
         True
 
+    Keys with a trailing dot represent empty nested dicts.
+
     Args:
         dict: Flat dict with dotted key notation.
 
@@ -349,7 +384,8 @@ def _inflate_dotted(input_dict):
             if part not in ref:
                 ref[part] = {}
             ref = ref[part]
-        ref[parts[-1]] = value
+        if parts[-1]:
+            ref[parts[-1]] = value
     return output_dict
 
 
@@ -364,6 +400,8 @@ def _flatten_dotted(input_dict, prefix=''):
         >>> output_dict == {'spam.eggs': 23, 'answer': 42}
         True
 
+    Empty nested dicts are represented by a key with a trailing dot.
+
     Args:
         dict: Nested dict
         string: Key prefix, used for recursion. Should be left at the default
@@ -378,7 +416,9 @@ def _flatten_dotted(input_dict, prefix=''):
             dotted = prefix + '.' + key
         else:
             dotted = key
-        if isinstance(value, dict):
+        if isinstance(value, dict) and not value:
+            output_dict[dotted + '.'] = np.zeros(0)
+        elif isinstance(value, dict):
             output_dict.update(_flatten_dotted(value, dotted))
         else:
             output_dict[dotted] = value
diff --git a/dsch/data.py b/dsch/data.py
index b3565b6..d984fe1 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -777,10 +777,7 @@ class List:
         """
         for idx in range(len(data_storage)):
             node_storage = data_storage['item_{}'.format(idx)]
-            subnode = data_node_from_schema(self.schema_node.subnode,
-                                            self.__module__, self,
-                                            data_storage=node_storage)
-            self._subnodes.append(subnode)
+            self._load_item(node_storage)
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
@@ -793,6 +790,23 @@ class List:
         """
         pass
 
+    def _load_item(self, node_storage, new_params=None):
+        """Add a sub-node when loading the List from existing data.
+
+        Args:
+            node_storage: Backend-specific data storage object of the item to
+                load. ``None`` if the item is present, but empty.
+            new_params: Backend-specific metadata, used if the item is empty.
+        """
+        subnode = data_node_from_schema(self.schema_node.subnode,
+                                        self.__module__, self,
+                                        data_storage=node_storage,
+                                        new_params=new_params)
+        if node_storage is None:
+            # Existing data is loaded, so do not apply initial values.
+            subnode.clear()
+        self._subnodes.append(subnode)
+
     def load_from(self, source_node):
         """Load data by copying from the given source node.
 
-- 
2.43.0


From 450f53e4a4c6feb32622acd02bd8daf829a9fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 13/46] fix: npz: support all field names and write to the
 exact storage path

---
 dsch/backends/npz.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 3b4b784..28fa9aa 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -5,6 +5,7 @@ This backend provides support for NumPy's npz format. For details, see
 enhancement proposal <https://docs.scipy.org/doc/numpy/neps/npy-format.html>`_.
 """
 import datetime
+import zipfile
 
 import numpy as np
 
@@ -283,8 +284,13 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': self.data.save()})
             else:
                 store_data = {}
-        np.savez(self.storage_path, _schema=self.schema_node.to_json(),
-                 **store_data)
+        store_data = dict(_schema=self.schema_node.to_json(), **store_data)
+        # Do not use np.savez here, because it treats some names as arguments
+        # and appends '.npz' to all other paths.
+        with zipfile.ZipFile(self.storage_path, 'w') as file_:
+            for name, value in store_data.items():
+                with file_.open(name + '.npy', 'w', force_zip64=True) as entry:
+                    np.lib.format.write_array(entry, np.asanyarray(value))
 
 
 class String(_ItemNode):
-- 
2.43.0


From eb3f9ce9af86a854ff76e2c5a694a32077c324b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 14/46] fix: mat: support long field names, exact paths and
 detect truncated files

---
 dsch/backends/mat.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index d05f05c..d677a5b 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -189,7 +189,7 @@ class Storage(npz.Storage):
         """Load an existing file from :attr:`storage_path`."""
         # Do not let SciPy squeeze the data, because this also removes array
         # dimensions and list levels that just happen to be of size one.
-        file_ = sio.loadmat(self.storage_path)
+        file_ = sio.loadmat(self.storage_path, appendmat=False)
         self.schema_node = schema.node_from_json(file_['schema'].item())
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
@@ -200,11 +200,13 @@ class Storage(npz.Storage):
 
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
-        store_data = {'schema': self.schema_node.to_json()}
+        store_data = {}
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data)
+        store_data['schema'] = self.schema_node.to_json()
+        sio.savemat(self.storage_path, store_data, appendmat=False,
+                    long_field_names=True)
 
 
 class String(_ItemNode, npz.String):
-- 
2.43.0


From 2d34ae94b1cd9d0bbebfc829dc4359fe953b8135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 15/46] fix: schema: support NumPy dtypes and values in JSON
 and compare nodes by it

---
 dsch/schema.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index fce29b0..56f285e 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -48,11 +48,13 @@ class SchemaNode:
 
     def __eq__(self, other):
         """Implement the == operator for schema nodes."""
+        # Compare the JSON representation, because e.g. tuples become lists when
+        # loading a schema from JSON.
         try:
-            other_dict = other.to_dict()
+            other_json = other.to_json()
         except AttributeError:
             return False
-        return self.to_dict() == other_dict
+        return self.to_json() == other_json
 
     @classmethod
     def from_dict(cls, node_dict):
@@ -100,7 +102,7 @@ class SchemaNode:
         Returns:
             str: JSON representation of the node.
         """
-        return json.dumps(self.to_dict(), sort_keys=True)
+        return json.dumps(self.to_dict(), sort_keys=True, default=_to_builtin)
 
 
 class Array(SchemaNode):
@@ -882,6 +884,22 @@ class Time(SchemaNode):
                                   type(test_data))
 
 
+def _to_builtin(value):
+    """Convert NumPy objects to types that are supported by JSON.
+
+    Args:
+        value: Data type or numeric value, as used for schema node attributes.
+
+    Returns:
+        Corresponding builtin value.
+    """
+    if isinstance(value, np.dtype):
+        return str(value)
+    if isinstance(value, np.generic):
+        return value.item()
+    raise TypeError('{!r} is not supported in a schema.'.format(value))
+
+
 def node_from_dict(node_dict):
     """Create a new node from its ``node_dict``.
 
-- 
2.43.0


From 444ecfe446ea293f3934e7f5538ddef171666b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 16/46] fix: resize arrays without moving elements or failing
 for referenced arrays

---
 dsch/backends/hdf5.py |  8 ++++++++
 dsch/data.py          | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 24be9ea..37d1645 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -104,6 +104,14 @@ class Array(data.Array, _ItemNode):
             maxshape=maxshape,
         )
 
+    def resize(self, size):
+        """Resize the array to the desired size.
+
+        Args:
+            size (tuple): Desired array size.
+        """
+        self._storage.resize(size)
+
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
diff --git a/dsch/data.py b/dsch/data.py
index d984fe1..6c490c9 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -16,6 +16,7 @@ import datetime
 import importlib
 
 import asciitree
+import numpy as np
 
 from . import exceptions
 
@@ -293,10 +294,22 @@ class Array(ItemNode):
     def resize(self, size):
         """Resize the array to the desired size.
 
+        All elements keep their position in the array. New elements are
+        initialized with zero.
+
         Args:
             size (tuple): Desired array size.
         """
-        self._storage.resize(size)
+        # Do not use numpy.ndarray.resize because it moves the elements of
+        # multi-dimensional arrays and fails if the array is in use elsewhere.
+        size = tuple(size)
+        old = self.value
+        if len(size) != old.ndim:
+            raise ValueError('Number of array dimensions cannot be changed.')
+        resized = np.zeros(size, dtype=old.dtype)
+        common = tuple(slice(min(dims)) for dims in zip(size, old.shape))
+        resized[common] = old[common]
+        self._storage = resized
 
     def __setitem__(self, key, value):
         """Pass slicing/indexing operations directly to NumPy array."""
-- 
2.43.0


From 4e34a76910c17f3994af846e371b68057683e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 17/46] fix: hdf5: keep the existing value if replacing it
 fails

---
 dsch/backends/hdf5.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 37d1645..be20ba3 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -67,9 +67,20 @@ class _ItemNode(data.ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
+        self._replace_dataset(data=new_value)
+
+    def _replace_dataset(self, **kwargs):
+        """Create a new dataset and use it instead of the existing one, if any.
+
+        The existing dataset is kept if the new one cannot be created.
+
+        Args:
+            **kwargs: Dataset options, see :meth:`h5py.Group.create_dataset`.
+        """
+        dataset = self._parent.create_dataset(None, **kwargs)
         self.clear()
-        self._storage = self._parent.create_dataset(self._dataset_name,
-                                                    data=new_value)
+        self._parent[self._dataset_name] = dataset
+        self._storage = self._parent[self._dataset_name]
 
 
 class Array(data.Array, _ItemNode):
@@ -85,8 +96,6 @@ class Array(data.Array, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-
         if self.schema_node.max_shape:
             if self.schema_node.max_shape == self.schema_node.min_shape:
                 # For equal shape constraints, disable resizing entirely.
@@ -97,8 +106,7 @@ class Array(data.Array, _ItemNode):
             # Make all dimensions arbitrarily resizable by default.
             maxshape = (None,) * self.schema_node.ndim
 
-        self._storage = self._parent.create_dataset(
-            self._dataset_name,
+        self._replace_dataset(
             data=new_value,
             dtype=self.schema_node.dtype,
             maxshape=maxshape,
@@ -361,9 +369,7 @@ class Scalar(data.Scalar, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-        self._storage = self._parent.create_dataset(
-            self._dataset_name,
+        self._replace_dataset(
             data=new_value,
             dtype=self.schema_node.dtype,
         )
-- 
2.43.0


From a13dec7407e572dded8cd58a352e9d38df91936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 18/46] fix: hdf5: return zero-dimensional arrays as arrays

---
 dsch/backends/hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index be20ba3..9cd745a 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -126,7 +126,8 @@ class Array(data.Array, _ItemNode):
         Returns:
             Node data.
         """
-        return self._storage[()]
+        # Zero-dimensional arrays are read as scalars.
+        return np.asarray(self._storage[()])
 
 
 class Bytes(_ItemNode):
-- 
2.43.0


From ff3fe0975dc6ce6bce54bc3f4ad73fd4248065ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 19/46] fix: PseudoStorage: do not keep a storage with an
 unsupported schema

---
 dsch/frontend.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsch/frontend.py b/dsch/frontend.py
index 0ea1029..e2615c6 100644
--- a/dsch/frontend.py
+++ b/dsch/frontend.py
@@ -255,11 +255,13 @@ class PseudoStorage:
             raise RuntimeError('PseudoStorage is already open.')
         if isinstance(self._data_storage, str):
             if os.path.exists(self._data_storage):
-                self.storage = load(self._data_storage)
-                self._verify_schema(self.storage.schema_node)
+                # Do not keep the storage if it uses an unsupported schema.
+                storage = load(self._data_storage)
+                self._verify_schema(storage.schema_node)
             else:
-                self.storage = create(self._data_storage,
-                                      schema_node=self._schema_node)
+                storage = create(self._data_storage,
+                                 schema_node=self._schema_node)
+            self.storage = storage
             self.data = self.storage.data
         else:
             self.storage = None
-- 
2.43.0


From 5bbe9cc7e6f44d26fe6fb90190d107911aad45ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 20/46] fix: PseudoStorage: close HDF5 files, not only drop the
 reference to them

---
 dsch/backends/hdf5.py | 7 +++++++
 dsch/frontend.py      | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 9cd745a..2c9e521 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -397,6 +397,13 @@ class Storage(storage.FileStorage):
         data: The top-level data node, corresponding to :attr:`schema_node`.
     """
 
+    def close(self):
+        """Close the file, so that it can be used by other programs.
+
+        The storage and its data nodes must not be used afterwards.
+        """
+        self._storage.close()
+
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
         self._storage = h5py.File(self.storage_path, 'r+')
diff --git a/dsch/frontend.py b/dsch/frontend.py
index e2615c6..d918664 100644
--- a/dsch/frontend.py
+++ b/dsch/frontend.py
@@ -242,6 +242,8 @@ class PseudoStorage:
         if self.storage:
             if hasattr(self.storage, 'save') and callable(self.storage.save):
                 self.storage.save()
+            if hasattr(self.storage, 'close') and callable(self.storage.close):
+                self.storage.close()
             self.storage = None
         self.data = None
         self.schema_node = None
-- 
2.43.0


From 0823675c7e210f105821ef2d479c520cd682a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:12 +0000
Subject: [PATCH 21/46] fix: hdf5: do not modify empty files when loading them
 fails

---
 dsch/backends/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 2c9e521..14854a7 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -4,6 +4,7 @@ This backend provides support for the HDF5 file format. :mod:`h5py` is used as
 the interface.
 """
 import datetime
+import os
 
 import h5py
 import numpy as np
@@ -406,6 +407,9 @@ class Storage(storage.FileStorage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
+        if os.path.getsize(self.storage_path) == 0:
+            # HDF5 would initialize the file when opening it for writing.
+            raise OSError('File {} is empty.'.format(self.storage_path))
         self._storage = h5py.File(self.storage_path, 'r+')
         self.schema_node = schema.node_from_json(
             self._storage.attrs['dsch_schema'])
-- 
2.43.0


From bee6f5022a87c8539368a8d0ef10b1f754ec4ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 22/46] fix: hdf5: do not leave a dataset behind if a new Bool
 or String is rejected

---
 dsch/backends/hdf5.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 14854a7..c7c51e0 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -175,8 +175,7 @@ class Bool(_ItemNode):
         if self._storage:
             self._storage[()] = new_value
         else:
-            self._storage = self._parent.create_dataset(self._dataset_name,
-                                                        data=new_value)
+            self._replace_dataset(data=new_value)
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
@@ -467,8 +466,7 @@ class String(_ItemNode):
         if self._storage:
             self._storage[()] = new_value
         else:
-            self._storage = self._parent.create_dataset(self._dataset_name,
-                                                        data=new_value)
+            self._replace_dataset(data=new_value)
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From bb7a278f3f55f8b89ec382834e044197f7f35b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 23/46] fix: List: do not keep an item whose value was rejected
 by append

---
 dsch/backends/hdf5.py | 14 +++++++++++++-
 dsch/data.py          | 14 ++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index c7c51e0..7da59f3 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -313,7 +313,11 @@ class List(data.List):
         self._subnodes.append(subnode)
         self._save_length()
         if value is not None:
-            subnode.replace(value)
+            try:
+                subnode.replace(value)
+            except Exception:
+                self._remove_last()
+                raise
 
     def clear(self):
         """Clear all subnodes."""
@@ -341,6 +345,14 @@ class List(data.List):
             self._load_item(data_storage.get(name, None),
                             {'name': name, 'parent': data_storage})
 
+    def _remove_last(self):
+        """Remove the last item, e.g. if its value could not be applied."""
+        super()._remove_last()
+        name = 'item_{}'.format(len(self))
+        if name in self._storage:
+            del self._storage[name]
+        self._save_length()
+
     def _save_length(self):
         """Save the number of items, because empty items are not stored."""
         self._storage.attrs['dsch_length'] = len(self)
diff --git a/dsch/data.py b/dsch/data.py
index 6c490c9..cfd1346 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -697,7 +697,11 @@ class List:
                                         self.__module__, self)
         self._subnodes.append(subnode)
         if value is not None:
-            subnode.replace(value)
+            try:
+                subnode.replace(value)
+            except Exception:
+                self._remove_last()
+                raise
 
     def clear(self):
         """Clear all sub-nodes.
@@ -857,6 +861,10 @@ class List:
                 tree[key] = sub_tree
         return {'(List)': tree}
 
+    def _remove_last(self):
+        """Remove the last item, e.g. if its value could not be applied."""
+        del self._subnodes[-1]
+
     def replace(self, new_value):
         """Replace the current list entries with the given list of entries.
 
@@ -866,8 +874,10 @@ class List:
         Args:
             new_value (list): New entries to put into the List.
         """
+        # Get all entries first, because this can fail or use this List.
+        new_items = list(new_value)
         self.clear()
-        for item in new_value:
+        for item in new_items:
             self.append(item)
 
     def __repr__(self):
-- 
2.43.0


From 6787eaa0992cde1bc9ecdbd3560d21200e09e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 24/46] fix: npz: write the schema last, so that failed saves
 are not loadable

---
 dsch/backends/npz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 28fa9aa..b047b4b 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -284,7 +284,9 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': self.data.save()})
             else:
                 store_data = {}
-        store_data = dict(_schema=self.schema_node.to_json(), **store_data)
+        # The schema is written last, so that the file cannot be loaded if
+        # writing any of the data fails.
+        store_data['_schema'] = self.schema_node.to_json()
         # Do not use np.savez here, because it treats some names as arguments
         # and appends '.npz' to all other paths.
         with zipfile.ZipFile(self.storage_path, 'w') as file_:
-- 
2.43.0


From 9d9214f62a370ab2e3e491dd6d44e6059aea0768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 25/46] fix: npz: reject files with damaged entries instead of
 loading them as bytes

---
 dsch/backends/npz.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index b047b4b..68065e1 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -252,7 +252,12 @@ class Storage(storage.FileStorage):
         """Load an existing file from :attr:`storage_path`."""
         with np.load(self.storage_path) as file_:
             self.schema_node = schema.node_from_json(file_['_schema'][()])
-            stored_data = _inflate_dotted(file_)
+            members = dict(file_.items())
+        for name, value in members.items():
+            # NumPy returns damaged entries as bytes.
+            if not isinstance(value, np.ndarray):
+                raise ValueError('{!r} is not an array.'.format(name))
+        stored_data = _inflate_dotted(members)
 
         if isinstance(self.schema_node, schema.Compilation):
             data_storage = {k: v for k, v in stored_data.items()
-- 
2.43.0


From e11dedbcb1d1a78563b94f6a9c458ecfe88b7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 26/46] fix: hdf5: damaged list items were taken for empty ones

---
 dsch/backends/hdf5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 7da59f3..ab5bdc1 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -342,7 +342,9 @@ class List(data.List):
                      [int(name.split('_')[-1]) + 1 for name in data_storage])
         for idx in range(length):
             name = 'item_{}'.format(idx)
-            self._load_item(data_storage.get(name, None),
+            # Do not use get(), because it also ignores damaged objects.
+            self._load_item(data_storage[name] if name in data_storage
+                            else None,
                             {'name': name, 'parent': data_storage})
 
     def _remove_last(self):
-- 
2.43.0


From da15c9f3f4db2e8469fc98fe4ad93875d71cea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 27/46] fix: load_from removed all items of a list that is
 copied to itself

---
 dsch/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsch/data.py b/dsch/data.py
index cfd1346..158cfda 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -836,6 +836,9 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        if source_node is self:
+            # The items would be gone before they can be copied.
+            return
         self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
-- 
2.43.0


From e27e95225a5456236486fd4f159c29f60cd7090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 28/46] fix: validation failed with NodeEmptyError for an empty
 independent variable

---
 dsch/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 158cfda..79b14c6 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -329,7 +329,8 @@ class Array(ItemNode):
         independent_values = []
         node_names = self.schema_node.depends_on or []
         for node_name in node_names:
-            if node_name:
+            # Empty nodes are valid, so there is nothing to compare with.
+            if node_name and not getattr(self.parent, node_name).empty:
                 independent_values.append(getattr(self.parent, node_name)
                                           .value)
             else:
-- 
2.43.0


From 4cd7cce2416cb71aed1dfa00cbca2ae2a6cc77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 29/46] fix: arrays were shared between all nodes they were
 assigned to

---
 dsch/backends/inmem.py | 16 +++++++++++++++-
 dsch/backends/npz.py   |  4 +++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/inmem.py b/dsch/backends/inmem.py
index f768daa..13aa22a 100644
--- a/dsch/backends/inmem.py
+++ b/dsch/backends/inmem.py
@@ -6,6 +6,8 @@ provides a clean way of data with dsch, without littering the workspace with
 temporary files. Also, it can be used to collect and aggregate data *before*
 selecting a storage path, e.g. file name.
 """
+import copy
+
 import numpy as np
 
 from .. import data, storage
@@ -41,7 +43,19 @@ class _ItemNode(data.ItemNode):
 
 class Array(data.Array, _ItemNode):
     """Array-type data node for the inmem backend."""
-    pass
+
+    def replace(self, new_value):
+        """Completely replace the current node value.
+
+        Instead of changing parts of the data (e.g. via numpy array slicing),
+        replace the entire data object for this node.
+
+        Args:
+            new_value: New value to apply to the node, independent of the
+                backend in use.
+        """
+        # Do not share the array with the caller, e.g. with other nodes.
+        self._storage = copy.copy(new_value)
 
 
 class Bytes(_ItemNode):
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 68065e1..ffe8443 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -4,6 +4,7 @@ This backend provides support for NumPy's npz format. For details, see
 :func:`numpy.savez`, :func:`numpy.load` and the `corresponding NumPy
 enhancement proposal <https://docs.scipy.org/doc/numpy/neps/npy-format.html>`_.
 """
+import copy
 import datetime
 import zipfile
 
@@ -37,7 +38,8 @@ class Array(data.Array, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = new_value
+        # Do not share the array with the caller, e.g. with other nodes.
+        self._storage = copy.copy(new_value)
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From c741aa1734bd55801f57cef413bc481dd9670dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 30/46] fix: npz, mat: null characters in strings were silently
 removed or replaced

---
 dsch/backends/mat.py | 13 +++++++++++++
 dsch/backends/npz.py |  7 ++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index d677a5b..74d6019 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -225,6 +225,19 @@ class String(_ItemNode, npz.String):
             data_storage = np.array('', dtype='U')
         super()._init_from_storage(data_storage)
 
+    def replace(self, new_value):
+        """Completely replace the current node value.
+
+        Args:
+            new_value: New value to apply to the node, independent of the
+                backend in use.
+        """
+        # SciPy writes null characters as spaces.
+        if isinstance(new_value, str) and '\0' in new_value:
+            raise ValueError('String {!r} cannot be represented.'
+                             .format(new_value))
+        super().replace(new_value)
+
 
 class Time(_ItemNode, npz.Time):
     """Time-type data node for the mat backend."""
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index ffe8443..f48d0eb 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -315,7 +315,12 @@ class String(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array(new_value, dtype='U')
+        storage_array = np.array(new_value, dtype='U')
+        # NumPy removes trailing null characters.
+        if isinstance(new_value, str) and str(storage_array) != new_value:
+            raise ValueError('String {!r} cannot be represented.'
+                             .format(new_value))
+        self._storage = storage_array
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 53204cb5540de602a127708dce0757f8dfb54abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 31/46] fix: npz: fields with dotted names or named _schema
 were silently lost

---
 dsch/backends/npz.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index f48d0eb..543287d 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -291,6 +291,8 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': self.data.save()})
             else:
                 store_data = {}
+        if '_schema' in store_data:
+            raise ValueError("Field name '_schema' cannot be represented.")
         # The schema is written last, so that the file cannot be loaded if
         # writing any of the data fails.
         store_data['_schema'] = self.schema_node.to_json()
@@ -432,6 +434,9 @@ def _flatten_dotted(input_dict, prefix=''):
     """
     output_dict = {}
     for key, value in input_dict.items():
+        if not key or '.' in key:
+            raise ValueError('Field name {!r} cannot be represented.'
+                             .format(key))
         if prefix:
             dotted = prefix + '.' + key
         else:
-- 
2.43.0


From 05583d1236876756e788e08cc4e1b84ac9e27213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 32/46] fix: mat: fields with unsupported names were silently
 lost

---
 dsch/backends/mat.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 74d6019..8e935d0 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -116,6 +116,20 @@ class Compilation(npz.Compilation):
                 # Existing data is loaded, so do not apply initial values.
                 self._subnodes[node_name].clear()
 
+    def save(self):
+        """Export the node data as a data storage object.
+
+        Returns:
+            dict: Data storage object with the node's data.
+        """
+        data_storage = super().save()
+        for name in data_storage:
+            # SciPy omits fields with such names.
+            if name[:1] in '_0123456789':
+                raise ValueError('Field name {!r} cannot be represented.'
+                                 .format(name))
+        return data_storage
+
 
 class Date(_ItemNode, npz.Date):
     """Date-type data node for the mat backend."""
-- 
2.43.0


From b839c11d241a83b4c33bff936d5caa2663620de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 33/46] fix: mat: arrays with another byte order could not be
 loaded

---
 dsch/backends/mat.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 8e935d0..47a7ad9 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -41,9 +41,12 @@ class Array(npz.Array):
                                                data_storage.size == 0):
                 data_storage = data_storage.reshape(-1)
         # MATLAB files provide logical values as uint8 and do not support half
-        # precision, which SciPy stores as double instead.
-        if (data_storage.dtype, np.dtype(self.schema_node.dtype)) in (
-                ('uint8', 'bool'), ('float64', 'float16')):
+        # precision, which SciPy stores as double instead. Also, all values in
+        # a file use the same byte order.
+        stored = data_storage.dtype.newbyteorder('=')
+        nominal = np.dtype(self.schema_node.dtype).newbyteorder('=')
+        if stored == nominal or (stored, nominal) in (('uint8', 'bool'),
+                                                      ('float64', 'float16')):
             data_storage = data_storage.astype(self.schema_node.dtype)
         super()._init_from_storage(data_storage)
 
-- 
2.43.0


From ba55ed07ae3c672f9521ff427b15f34fb009ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 34/46] fix: mat: the existing file was lost if the data cannot
 be converted

---
 dsch/backends/mat.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 47a7ad9..8aa3937 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -1,3 +1,5 @@
+import io
+
 import numpy as np
 import scipy.io as sio
 
@@ -222,8 +224,11 @@ class Storage(npz.Storage):
         if output_data is not None:
             store_data['data'] = output_data
         store_data['schema'] = self.schema_node.to_json()
-        sio.savemat(self.storage_path, store_data, appendmat=False,
-                    long_field_names=True)
+        # Do not touch the file before all data has been converted.
+        buffer = io.BytesIO()
+        sio.savemat(buffer, store_data, long_field_names=True)
+        with open(self.storage_path, 'wb') as file_:
+            file_.write(buffer.getbuffer())
 
 
 class String(_ItemNode, npz.String):
-- 
2.43.0


From 9b410a99065e426c284d0ea1f7b885fbdfe8fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 35/46] fix: npz: Compilations and Lists named _schema were
 silently lost

---
 dsch/backends/npz.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 543287d..340ddf3 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -283,7 +283,10 @@ class Storage(storage.FileStorage):
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
         if isinstance(self.schema_node, schema.Compilation):
-            store_data = _flatten_dotted(self.data.save())
+            store_data = self.data.save()
+            if '_schema' in store_data:
+                raise ValueError("Field name '_schema' cannot be represented.")
+            store_data = _flatten_dotted(store_data)
         else:
             # If the top-level node is not a Compilation, the default name
             # 'data' is used for the node.
@@ -291,8 +294,6 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': self.data.save()})
             else:
                 store_data = {}
-        if '_schema' in store_data:
-            raise ValueError("Field name '_schema' cannot be represented.")
         # The schema is written last, so that the file cannot be loaded if
         # writing any of the data fails.
         store_data['_schema'] = self.schema_node.to_json()
-- 
2.43.0


From 079e6189b2a282b229404f59c061832b91297d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 36/46] fix: npz: saving Python objects produced a file that
 cannot be loaded

---
 dsch/backends/npz.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 340ddf3..deb6933 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -294,6 +294,10 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': self.data.save()})
             else:
                 store_data = {}
+        for name, value in store_data.items():
+            # NumPy would write these, but does not load them.
+            if np.asanyarray(value).dtype.hasobject:
+                raise ValueError('{!r} contains Python objects.'.format(name))
         # The schema is written last, so that the file cannot be loaded if
         # writing any of the data fails.
         store_data['_schema'] = self.schema_node.to_json()
-- 
2.43.0


From 584e8c669f815c008d896516e38a8405aa8b3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 37/46] fix: hdf5: fields with empty names or slashes could not
 be loaded

---
 dsch/backends/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index ab5bdc1..f0a386a 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -231,6 +231,10 @@ class Compilation(data.Compilation):
             comp_group = new_params['parent']
 
         for node_name, subnode in self.schema_node.subnodes.items():
+            # HDF5 would use these as paths to other objects.
+            if not node_name or '/' in node_name:
+                raise ValueError('Field name {!r} cannot be represented.'
+                                 .format(node_name))
             new_params_sub = {'name': node_name, 'parent': comp_group}
             self._subnodes[node_name] = data.data_node_from_schema(
                 subnode, self.__module__, self, new_params=new_params_sub)
-- 
2.43.0


From e9c77a1f34a72ac70c1ea236c0a4c8f30479872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 38/46] fix: npz: fields with NUL characters in the name were
 silently lost

---
 dsch/backends/npz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index deb6933..9acb689 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -439,7 +439,7 @@ def _flatten_dotted(input_dict, prefix=''):
     """
     output_dict = {}
     for key, value in input_dict.items():
-        if not key or '.' in key:
+        if not key or '.' in key or '\0' in key:
             raise ValueError('Field name {!r} cannot be represented.'
                              .format(key))
         if prefix:
-- 
2.43.0


From db273958595bdacb6bd8602b5ee21e11017fb9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 39/46] fix: mat: fields with NUL characters in the name were
 silently lost

---
 dsch/backends/mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 8aa3937..d5cf83c 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -129,8 +129,8 @@ class Compilation(npz.Compilation):
         """
         data_storage = super().save()
         for name in data_storage:
-            # SciPy omits fields with such names.
-            if name[:1] in '_0123456789':
+            # SciPy omits or shortens such names.
+            if name[:1] in '_0123456789' or '\0' in name:
                 raise ValueError('Field name {!r} cannot be represented.'
                                  .format(name))
         return data_storage
-- 
2.43.0


From 4ae48f01830a635695d22ff7acc510db816a3181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 40/46] fix: hdf5: fields with NUL characters in the name were
 mixed up

---
 dsch/backends/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index f0a386a..87731a7 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -231,8 +231,8 @@ class Compilation(data.Compilation):
             comp_group = new_params['parent']
 
         for node_name, subnode in self.schema_node.subnodes.items():
-            # HDF5 would use these as paths to other objects.
-            if not node_name or '/' in node_name:
+            # HDF5 would use these for other objects.
+            if not node_name or '/' in node_name or '\0' in node_name:
                 raise ValueError('Field name {!r} cannot be represented.'
                                  .format(node_name))
             new_params_sub = {'name': node_name, 'parent': comp_group}
-- 
2.43.0


From a0bb7f5e400d8d9c4cd6b1f374970552ff4ba938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 41/46] fix: hdf5: arrays with equal shape limits that are not
 fixed could not be resized

---
 dsch/backends/hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 87731a7..4252b15 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -98,7 +98,8 @@ class Array(data.Array, _ItemNode):
                 backend in use.
         """
         if self.schema_node.max_shape:
-            if self.schema_node.max_shape == self.schema_node.min_shape:
+            if (self.schema_node.max_shape == self.schema_node.min_shape and
+                    None not in self.schema_node.max_shape):
                 # For equal shape constraints, disable resizing entirely.
                 maxshape = None
             else:
-- 
2.43.0


From 072323741b74cfb4b0b2a837735cc730cb957f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 42/46] fix: hdf5: files with fields named "." or with
 surrogates could not be loaded

---
 dsch/backends/hdf5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 4252b15..5bd19c4 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -232,8 +232,10 @@ class Compilation(data.Compilation):
             comp_group = new_params['parent']
 
         for node_name, subnode in self.schema_node.subnodes.items():
-            # HDF5 would use these for other objects.
-            if not node_name or '/' in node_name or '\0' in node_name:
+            # HDF5 would use these for other objects or cannot encode them.
+            if (node_name in ('', '.') or '/' in node_name or
+                    '\0' in node_name or
+                    node_name.encode('utf-8', 'ignore').decode() != node_name):
                 raise ValueError('Field name {!r} cannot be represented.'
                                  .format(node_name))
             new_params_sub = {'name': node_name, 'parent': comp_group}
-- 
2.43.0


From 7e07a10953fb7e11bf58eb0d8874d5879f118c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 43/46] fix: hdf5: a rejected append left a group behind that
 could not be loaded

---
 dsch/backends/hdf5.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 5bd19c4..876fdf7 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -314,9 +314,14 @@ class List(data.List):
         """
         new_params = {'name': 'item_{}'.format(len(self)),
                       'parent': self._storage}
-        subnode = data.data_node_from_schema(self.schema_node.subnode,
-                                             self.__module__, self,
-                                             new_params=new_params)
+        try:
+            subnode = data.data_node_from_schema(self.schema_node.subnode,
+                                                 self.__module__, self,
+                                                 new_params=new_params)
+        except Exception:
+            if new_params['name'] in self._storage:
+                del self._storage[new_params['name']]
+            raise
         self._subnodes.append(subnode)
         self._save_length()
         if value is not None:
-- 
2.43.0


From 296ee2111552368e2eb1edac8b47fb6fb4b1bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 44/46] fix: hdf5: a rejected create left a file behind

---
 dsch/backends/hdf5.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 876fdf7..7e8fcd3 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -460,6 +460,16 @@ class Storage(storage.FileStorage):
     def _new(self):
         """Create a new file at :attr:`storage_path`."""
         self._storage = h5py.File(self.storage_path, 'x')
+        try:
+            self._initialize()
+        except Exception:
+            # The file could neither be loaded nor created again.
+            self._storage.close()
+            os.remove(self.storage_path)
+            raise
+
+    def _initialize(self):
+        """Write the schema and create the data nodes in a new file."""
         self._storage.attrs['dsch_schema'] = self.schema_node.to_json()
         if isinstance(self.schema_node, schema.Compilation):
             new_params = {'name': '', 'parent': self._storage}
-- 
2.43.0


From e959a8ea169b0df906661956a8097aab69aa8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 45/46] fix: npz: the existing file was lost if a field name
 cannot be written

---
 dsch/backends/npz.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 9acb689..de8b8f0 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -294,10 +294,14 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': self.data.save()})
             else:
                 store_data = {}
+        # Reject all data that cannot be written before replacing the file.
         for name, value in store_data.items():
             # NumPy would write these, but does not load them.
             if np.asanyarray(value).dtype.hasobject:
                 raise ValueError('{!r} contains Python objects.'.format(name))
+            if len(name.encode('utf-8')) > 65531:
+                raise ValueError('Field name {!r} cannot be represented.'
+                                 .format(name))
         # The schema is written last, so that the file cannot be loaded if
         # writing any of the data fails.
         store_data['_schema'] = self.schema_node.to_json()
-- 
2.43.0


From e4c5aa8c937e8cf5046a51dfe02e00c24e94f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:47 +0000
Subject: [PATCH 46/46] fix: Refuse masked array elements that files cannot
 represent

---
 dsch/backends/hdf5.py | 2 ++
 dsch/backends/npz.py  | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 7e8fcd3..8d9dd98 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -97,6 +97,8 @@ class Array(data.Array, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
+        if np.ma.is_masked(new_value):
+            raise ValueError('Masked array elements cannot be represented.')
         if self.schema_node.max_shape:
             if (self.schema_node.max_shape == self.schema_node.min_shape and
                     None not in self.schema_node.max_shape):
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index de8b8f0..75232ff 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -38,8 +38,13 @@ class Array(data.Array, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        # Do not share the array with the caller, e.g. with other nodes.
-        self._storage = copy.copy(new_value)
+        if np.ma.is_masked(new_value):
+            raise ValueError('Masked array elements cannot be represented.')
+        # Do not share the array with the caller, e.g. with other nodes. Files
+        # cannot represent array subclasses.
+        self._storage = (np.array(new_value)
+                         if isinstance(new_value, np.ndarray)
+                         else copy.copy(new_value))
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0

