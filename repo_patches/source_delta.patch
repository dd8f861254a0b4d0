From a6142822d0f01a7402f8f537ced2713421501b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 01/32] fix: children_of with several fields reused the loop
 variable as the start node

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index a9e1a36..4fc73f4 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -62,8 +62,8 @@ def children_of(layer: NodeLayerCollection, *props):
     def compose(yielders):
         def yielder(n: Node):
             for yielder in yielders:
-                for n in yielder(n):
-                    yield n
+                for child in yielder(n):
+                    yield child
 
         return yielder
 
-- 
2.43.0


From 9bbae55b7aae83bb6ed46a4d48759fd594a617ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 02/32] fix: dfs_leaves reported nodes whose children had
 merely been visited already

---
 py/docria/algorithm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 4fc73f4..ac1d8d4 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -183,12 +183,13 @@ def dfs_leaves(start: Node,
 
         visited.add(current)
 
-        child_nodes = [ch for ch in children(current) if ch not in visited]
+        all_children = list(children(current))
+        child_nodes = [ch for ch in all_children if ch not in visited]
         child_nodes.reverse()
 
-        if not child_nodes and is_result and is_result(current):
+        if not all_children and is_result and is_result(current):
             yield current
-        elif not child_nodes and not is_result:
+        elif not all_children and not is_result:
             yield current
 
         stack.extend(child_nodes)
-- 
2.43.0


From 651e3ba780905ca2a463c6b6f1c0cbf8ed35e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 03/32] fix: group_by_span crashed on nodes whose span field is
 None

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index ac1d8d4..5de2d1e 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -321,7 +321,7 @@ def group_by_span(group_nodes: List[Node],
 
     # 1. Convert all nodes to Start, Stop symbols with added context information
     for group_node in group_nodes:
-        if group_span_field in group_node:
+        if group_node.get(group_span_field) is not None:
             span = group_node[group_span_field]  # type: TextSpan
 
             if span.start == span.stop:
@@ -339,7 +339,7 @@ def group_by_span(group_nodes: List[Node],
             raise KeyError("Could not find span property name for layer: %s" % layer_name) from e
 
         for layer_node in layer:
-            if span_name in layer_node:
+            if layer_node.get(span_name) is not None:
                 span = layer_node[span_name]  # type: TextSpan
 
                 if span.start == span.stop:
-- 
2.43.0


From 8b3999ac6daf6ac301b8d3c3be51550f9b4f1cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 04/32] fix: retain crashed on layers with gaps and left
 negative ids behind when rejecting a node

---
 py/docria/model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index b1bb0af..4f18cce 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1589,24 +1589,25 @@ class NodeLayerCollection(NodeCollection):
     def retain(self, nodes: Iterable["Node"]):
         """Retain all nodes in the given list nodes, remove everything else."""
 
+        retained = set()
         try:
             for n in iter(nodes):
-                # Mark the nodes to retain
+                # Collect the nodes to retain
                 if n.collection is not self:
                     raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
 
-                # Guards against more than one reference to a node in nodes
-                if n._id >= 0:
-                    n._id = -(n._id + 1)  # add 1, otherwise zero fails.
+                retained.add(n)
 
         except TypeError:
             raise ValueError("Given nodes is not iterable.")
 
-        # Compact and remove unmarked nodes
+        # Compact and remove all other nodes
         k = 0
         for i in range(len(self._nodes)):
             n = self._nodes[i]
-            if n._id >= 0:
+            if n is None:
+                continue
+            elif n not in retained:
                 n.collection = None
                 self.num -= 1
             else:
-- 
2.43.0


From 2074ed453cef6f5a88a907d415941007393cda81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 05/32] fix: add accepted nodes already bound to a layer,
 corrupting ids and counts

---
 py/docria/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 4f18cce..bb321d6 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1460,6 +1460,7 @@ class NodeLayerCollection(NodeCollection):
         if len(args) > 0:
             for n in args:
                 if isinstance(n, Node):
+                    assert n.collection is None, "Node is already bound to a collection: %s" % repr(n.collection)
                     n._id = len(self._nodes)
                     n.collection = self
                     self._nodes.append(n)
-- 
2.43.0


From d8cb09fb7de3c2e64a1d5aeebb49ea7844f297a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 06/32] fix: add_many skipped validation when given a one-shot
 iterator

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index bb321d6..9a73fd4 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1501,7 +1501,7 @@ class NodeLayerCollection(NodeCollection):
             self.num += 1
 
         if full_validation:
-            for node in nodes:
+            for node in self._nodes[start_pos:]:
                 assert self.validate(node), "Node not valid"
 
         if default_fill and len(self._default_values) > 0:
-- 
2.43.0


From 06a321a53cca0f4e94e95069c25034048ac1f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 07/32] fix: a sort that fails while comparing keys left stale
 node ids

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 9a73fd4..d5e690c 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1546,7 +1546,7 @@ class NodeLayerCollection(NodeCollection):
         :param keyfn: a function (input: Node) -> value to sort by.
         """
         self.compact()
-        self._nodes.sort(key=keyfn)
+        self._nodes = sorted(self._nodes, key=keyfn)
         for i, n in zip(range(len(self)), self):
             n._id = i
 
-- 
2.43.0


From 9780368be1b0024206ad9dfed5336eba7350fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 08/32] fix: trim only stripped one side when both sides had
 whitespace

---
 py/docria/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index d5e690c..fdd13a3 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -685,7 +685,8 @@ class TextSpan:
                     break
 
                 new_start += 1
-        elif str.isspace(self.text.text[self.stop - 1]):
+
+        if new_start < self.stop and str.isspace(self.text.text[self.stop - 1]):
             # move backward
             for i in range(len(self) - 1, -1, -1):
                 if not str.isspace(self.text.text[new_stop - 1]):
-- 
2.43.0


From a8464fd3caa467453997ca021bbbc06d5dbf2cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 09/32] fix: indexing a span outside its length returned
 characters of the surrounding text

---
 py/docria/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index fdd13a3..7dd19f6 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -619,8 +619,10 @@ class TextSpan:
         elif isinstance(indx, tuple) and len(indx) == 2:
             return self.text[indx[0] + self.start:indx[1] + self.start]
         elif isinstance(indx, int):
-            start, stop, step = slice(indx, indx + 1).indices(len(self))
-            return self.text.text[start + self.start]
+            if not -len(self) <= indx < len(self):
+                raise IndexError("Index %d out of range for span of length %d" % (indx, len(self)))
+
+            return self.text.text[self.start + (indx if indx >= 0 else indx + len(self))]
         else:
             raise ValueError("Unsupported input indx: %s" % repr(indx))
 
-- 
2.43.0


From 879be041f6dd203990395cd0f98b7d8ba3d5b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 10/32] fix: typed default values: float default was lost,
 str/bool types with a default skipped validation

---
 py/docria/model.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 7dd19f6..af87929 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1071,7 +1071,7 @@ class DataTypeNoderefList(DataType):
 
 class DataTypes:
     """Layer field type factory"""
-    _float64 = DataTypeFloat(DataTypeEnum.F64, default=0)
+    _float64 = DataTypeFloat(DataTypeEnum.F64, default=0.0)
     _float64_raw = DataTypeFloat(DataTypeEnum.F64)
     _int32 = DataTypeInt32(DataTypeEnum.I32, default=0)
     _int32_raw = DataTypeInt32(DataTypeEnum.I32)
@@ -1108,7 +1108,7 @@ class DataTypes:
         elif default is None:
             return DataTypes._float64_raw
         else:
-            return DataTypeFloat(DataTypeEnum.F64, default=0.0)
+            return DataTypeFloat(DataTypeEnum.F64, default=default)
 
     @staticmethod
     def string(default: Optional[str] = ""):
@@ -1117,16 +1117,16 @@ class DataTypes:
         elif default is None:
             return DataTypes._string_raw
         else:
-            return DataType(DataTypeEnum.STRING, default=default)
+            return DataTypeString(DataTypeEnum.STRING, default=default)
 
     @staticmethod
     def bool(default: Optional[bool] = False):
-        if default == "":
-            return DataTypes._string
-        elif default is None:
+        if default is None:
             return DataTypes._bool_raw
+        elif not default:
+            return DataTypes._bool
         else:
-            return DataType(DataTypeEnum.BOOL, default=default)
+            return DataTypeBool(DataTypeEnum.BOOL, default=default)
 
     boolean = bool
 
-- 
2.43.0


From 4b60e20d016be95a5930ef77d9e61512e3fbf984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 11/32] fix: typeof classified booleans as 64 bit integers

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index af87929..3683301 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1180,6 +1180,8 @@ class DataTypes:
     def typeof(o, comparetype: "DataType" = None) -> DataType:
         if isinstance(o, str):
             return DataTypes.string()
+        elif isinstance(o, bool):
+            return DataTypes.bool()
         elif isinstance(o, int):
             if comparetype is not None and comparetype.typename == DataTypeEnum.I32:
                 if -0x80000000 <= o <= 0x7FFFFFFF:
@@ -1190,8 +1192,6 @@ class DataTypes:
                 return DataTypes.int64()
         elif isinstance(o, float):
             return DataTypes.float64()
-        elif isinstance(o, bool):
-            return DataTypes.bool()
         elif isinstance(o, bytes):
             return DataTypes.binary
         elif isinstance(o, TextSpan):
-- 
2.43.0


From ee4e224f8f33a6cc0be036892859b2946b275d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 12/32] fix: NodeList dropped fields whose type had to be
 widened

---
 py/docria/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 3683301..dd3b067 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -503,6 +503,8 @@ class NodeList(list, NodeCollection):
                                                  (repr(resolved_type), repr(el), fld, repr(self)))
                             else:
                                 resolved_type = resolved_type.cast_up(el)
+
+                        output_types[fld] = resolved_type
                 else:
                     output_types[fld] = next(iter(dtypes))
 
-- 
2.43.0


From dbf282770a9afe48910b7af13a8f0146a084645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 13/32] fix: field lookup on a query failed unless the query
 was made directly on a layer

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index dd3b067..1200efe 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1270,7 +1270,7 @@ class NodeCollectionQuery(NodeCollection):
 
     def __getitem__(self, item):
         if isinstance(item, str):
-            if item in self.collection.schema.fields:
+            if item in self.fieldtypes:
                 return NodeFieldCollection(self, item)
         else:
             return super().__getitem__(item)
-- 
2.43.0


From 6795c52e67dd65b95cd5fbde89266a69f22419fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 14/32] fix: remove_layer did not report success, ignored node
 spans and did not cascade

---
 py/docria/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 1200efe..3ca0fb9 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1857,7 +1857,7 @@ class Document:
         for k, v in self.layers.items():
             if k != name:
                 for fk, fv in v.schema.fields.items():
-                    if fv.typename == DataTypeEnum.NODEREF or fv.typename == DataTypeEnum.NODEREF_MANY:
+                    if fv.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}:
                         if fv.options["layer"] == name:
                             referencing_layer_field.setdefault(k, []).append(fk)
 
@@ -1870,7 +1870,12 @@ class Document:
             raise DataValidationError("Attempting to remove layer %s, but is referenced from layer(s)+field(s): %s"
                                       % (name, layer_field_names))
 
+        for k, fields in referencing_layer_field.items():
+            for fk in fields:
+                self.layers[k].remove_field(fk)
+
         del self.layers[name]
+        return True
 
     def __repr__(self):
         return "Document(%d layers, %d texts%s)" % (
-- 
2.43.0


From 9f35550266685d408401404a990f7077c4061b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 15/32] fix: extra_fields_ok disabled type validation as well

---
 py/docria/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 3ca0fb9..c8c181f 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1994,9 +1994,10 @@ class Document:
             validate_fn = v.validate
 
             # Validate nodes
-            if type_validation and not extra_fields_ok:
+            if type_validation or not extra_fields_ok:
                 for n in v:
-                    validate_fn(n)
+                    if type_validation:
+                        validate_fn(n)
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
-- 
2.43.0


From 84f07a6a4e760dca84c900c264132cf5aca01e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 16/32] fix: selective text reading always returned an empty
 dictionary

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5293445..0b4e298 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -720,9 +720,9 @@ class MsgpackCodec:
         if len(texts) == 0:
             return next(unpacker)
         else:
+            prop_keys = set(texts)
             texts = {}
 
-            prop_keys = set(texts)
             num_entries = unpacker.read_map_header()
             for i in range(num_entries):
                 k = next(unpacker)
-- 
2.43.0


From f4147fe59de3ab23472a758543cafc1936d68413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 17/32] fix: reading a subset of layers required all other
 layers as well

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 0b4e298..292de89 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -497,7 +497,7 @@ class MsgpackDocument:
             layerschema = schema[typename]
             all_nodes[typename] = MsgpackCodec.decode_layer(unpacker, doc, typename, text2offsets, layerschema, **kwargs)
 
-        Codec.commit_layers(doc, types, schema, all_nodes)
+        Codec.commit_layers(doc, layer_set, schema, all_nodes)
         return doc
 
 
-- 
2.43.0


From edadeeda61fa3a5d7f1d9f31019ff0a84618c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 18/32] fix: unpickled MsgpackDocument had no ref

---
 py/docria/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 292de89..fccf5a0 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -398,6 +398,7 @@ class MsgpackDocument:
         return {"doc": self.rawdata.getvalue(), "ref": self.ref}
 
     def __setstate__(self, state):
+        self.ref = state["ref"]
         self.rawdata = BytesIO(state["doc"])
         if self.rawdata.read(4) != b"DM_1":
             raise ValueError("Magic bytes is not DM_1")
-- 
2.43.0


From ae52b56d7f6987781e6c915cb47dc3f7c3d83f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 19/32] fix: truncation failed when the display width was
 unlimited

---
 py/docria/printout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 9b5e048..96446e9 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -113,7 +113,10 @@ def truncate(text):
     if options.max_column_width is None:
         return text
     else:
-        min_sz = min(options._max_display_width-5, options.max_column_width-5)
+        min_sz = options.max_column_width-5
+        if options.max_display_width is not None:
+            min_sz = min(options.max_display_width-5, min_sz)
+
         if len(text) > min_sz:
             part = min_sz >> 1
             return "%s ... %s" % (text[0:part], text[-part:])
-- 
2.43.0


From 5195e4fb3790d30662a1fa573f59d3dbd0c12d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 20/32] fix: boundary reader miscounted boundaries for many
 offsets and at exact end of a segment

---
 py/docria/collection.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index e30fe31..99d169a 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -75,27 +75,20 @@ class _BoundaryReader(RawIOBase):
         return offset
 
     def read(self, n=-1):
-        abs_start_position = ((self.offset + 1) >> self.boundary)*4+(self.offset + 1)
+        abs_start_position = self._to_absolute(self.offset)
         if n == -1:
             alldata = self.inputio.read(n)
-            abs_stop_position = abs_start_position + len(alldata)
         else:
-            abs_stop_position = ((self.offset + n + 1) >> self.boundary)*4+(self.offset + n + 1)
-            alldata = self.inputio.read(abs_stop_position-abs_start_position)
-            abs_stop_position = abs_start_position + len(alldata)
+            alldata = self.inputio.read(self._to_absolute(self.offset + n)-abs_start_position)
+
+        abs_stop_position = abs_start_position + len(alldata)
 
         if len(alldata) == 0:
             return alldata
 
-        if (abs_start_position >> self.boundary) << self.boundary == abs_start_position:
-            abs_start_position += 4
-
-        num_boundaries = (abs_stop_position >> self.boundary) - (abs_start_position >> self.boundary)
+        num_boundaries = ((abs_stop_position - 1) >> self.boundary) - (abs_start_position >> self.boundary)
         real_length = abs_stop_position-abs_start_position-num_boundaries*4
 
-        if (abs_stop_position >> self.boundary) << self.boundary == abs_stop_position:
-            real_length -= 4
-
         output = bytearray(real_length)
 
         output_position = 0
-- 
2.43.0


From 6475b953d8857f4787a8db1e5090f711c7421f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 21/32] fix: boundary reader reported a wrong position at a
 segment boundary

---
 py/docria/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 99d169a..93b2072 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -109,7 +109,7 @@ class _BoundaryReader(RawIOBase):
         return bytes(output)
 
     def tell(self):
-        return self.inputio.tell()-(self.inputio.tell() >> self.boundary)*4-1
+        return self.offset
 
     def readable(self):
         return True
-- 
2.43.0


From 265998e57b23cae8e269960b3bbb0430365a7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 22/32] fix: adding an existing field raised TypeError instead
 of SchemaValidationError

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index c8c181f..40ccae2 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1328,7 +1328,7 @@ class NodeLayerCollection(NodeCollection):
         :raises SchemaValidationError if the field conflicts with existing field
         """
         if name in self._schema.fields:
-            raise SchemaValidationError("Cannot add field %s, it already exists!" % name)
+            raise SchemaValidationError("Cannot add field %s, it already exists!" % name, {name})
 
         self._schema.add(name, dtype)
         self._update_default_values()
-- 
2.43.0


From 3d375808aed73053bb6ded303ac913444cade11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 23/32] fix: HTML tables crashed on wikipedia URNs without a
 language

---
 py/docria/printout.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 96446e9..139f059 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -152,6 +152,9 @@ def urn_link_wikidata(partial):
 
 def urn_link_wikipedia(partial):
     parts = partial.split(":", 1)
+    if len(parts) == 1:
+        return "https://www.wikipedia.org/wiki/{0}".format(escape(partial))
+
     return "https://{0}.wikipedia.org/wiki/{1}".format(escape(parts[0]), escape(parts[1]))
 
 
-- 
2.43.0


From 13be2c51f530e7376b21b627fa4b39655cb9b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 24/32] fix: a (start, stop) pair on a span silently wrapped
 around or was clipped outside the text

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 40ccae2..203871c 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -619,7 +619,7 @@ class TextSpan:
             start, stop, step = indx.indices(len(self))
             return self.text[start + self.start:stop + self.start]
         elif isinstance(indx, tuple) and len(indx) == 2:
-            return self.text[indx[0] + self.start:indx[1] + self.start]
+            return self.text[indx[0] + self.start, indx[1] + self.start]
         elif isinstance(indx, int):
             if not -len(self) <= indx < len(self):
                 raise IndexError("Index %d out of range for span of length %d" % (indx, len(self)))
-- 
2.43.0


From e3a7dbe2c41eb64fbcc2601d644242fa7ec42f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 25/32] fix: repr of a dangling node raised AttributeError,
 which also masked the ValueError of remove/retain

---
 py/docria/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 203871c..a327296 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -193,6 +193,9 @@ class Node(dict):
         return tbl.render_html()
 
     def __repr__(self):
+        if self.collection is None:
+            return "Node<dangling>"
+
         return "Node<%s#%d>" % (self.collection.schema.name, self._id) if len(self) > 0 else ""
 
 
-- 
2.43.0


From 70cd476ce3b4ca86e67f661d3458c3bf23f627cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 26/32] fix: span_translate ignores empty mapping intervals
 instead of leaving them open

---
 py/docria/algorithm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 5de2d1e..2abcfdd 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -230,8 +230,9 @@ def span_translate(doc: Document,
         sourceStart = m[source_pos].start
         sourceStop  = m[source_pos].stop
 
-        mapping_in_source.append(((sourceStart, 0), (0, m)))
-        mapping_in_source.append(((sourceStop, -1), (0, m)))
+        if sourceStart < sourceStop:  # An empty interval does not contain any position
+            mapping_in_source.append(((sourceStart, 0), (0, m)))
+            mapping_in_source.append(((sourceStop, -1), (0, m)))
 
     for n in layer_remap:
         if target_pos_remap not in n:
-- 
2.43.0


From cc683c76493024fcfbec158abb28aa6380aec335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 27/32] fix: reference of a sequentially read document names
 the block it was read from

---
 py/docria/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 93b2072..9c032c0 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -391,7 +391,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
         while self.block is None:
             datablock = self.readblock()
@@ -404,7 +404,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
     def close(self):
         self.inputio.close()
-- 
2.43.0


From 7e935ed1b1351ad0a99ebe475e2b944894e6c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:12 +0000
Subject: [PATCH 28/32] fix: escape the name of a text in its HTML
 representation

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index a327296..518de45 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -772,7 +772,7 @@ class Text:
 
     def _repr_html_(self):
         from html import escape
-        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(self.name, escape(self.text))
+        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(escape(self.name), escape(self.text))
 
     def compile(self, offsets: List[int]):
         """
-- 
2.43.0


From f7777314995252d53056ddf5ccc2919ca666985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:12 +0000
Subject: [PATCH 29/32] fix: print layers with a percent sign in their name

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 518de45..e1cc26c 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1673,10 +1673,10 @@ class NodeLayerCollection(NodeCollection):
         return "Layer(%s, N=%d)" % (self.name, self.num)
 
     def _repr_html_(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_html()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_html()
 
     def __str__(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_text()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_text()
 
     def __len__(self):
         return self.num
-- 
2.43.0


From 27a80210da8495f4878bc7ab833b1b150ee760c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:12 +0000
Subject: [PATCH 30/32] fix: escape named row indices in HTML tables

---
 py/docria/printout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 139f059..fba143b 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -204,7 +204,7 @@ class Table:
         return output
 
     def format_html(self, row: TableRow, index: int):
-        output = [str(row.index) if row.index is not None else str(index)]
+        output = [escape(str(row.index)) if row.index is not None else str(index)]
         for col in row.elems:
             if isinstance(col, TableCell):
                 output.append(col.html)
-- 
2.43.0


From 351c4d528481d20daee43ff053f12d44914c78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 31/32] fix: encoding rejects nodes for which validation
 returns false

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index e1cc26c..9bac304 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1999,8 +1999,8 @@ class Document:
             # Validate nodes
             if type_validation or not extra_fields_ok:
                 for n in v:
-                    if type_validation:
-                        validate_fn(n)
+                    if type_validation and not validate_fn(n):
+                        raise SchemaValidationError("Node of layer %s is not valid: %s" % (k, repr(n)), set(n.keys()))
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
-- 
2.43.0


From 3c2bbe2242ddca9ca652830bf142f548d50f2e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 32/32] fix: node lists accept nodes only

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 9bac304..df8bbe0 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1071,7 +1071,7 @@ class DataTypeNoderefList(DataType):
     def is_valid(self, value) -> bool:
         target_layer = self.options["layer"]
         return (isinstance(value, list) or isinstance(value, NodeCollection)) and \
-               all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))
+               all(map(lambda n: isinstance(n, Node) and n.collection is not None and n.collection.name == target_layer, value))
 
 
 class DataTypes:
-- 
2.43.0

