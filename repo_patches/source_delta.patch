From cb2932768ed6d2f2e15fc00682a0de5112b77cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 01/22] fix: read the properties of the vertex with the
 all-ones id in the memory store

Looking for the properties computed the successor of the id, which does not
exist for the greatest id: the call panicked and poisoned the store.
---
 lib/src/memory/datastore.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index d76a8e2..832206d 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -6,7 +6,6 @@ use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
 use crate::errors::{Error, Result};
-use crate::util;
 use crate::{Database, Datastore, DynIter, Edge, Identifier, Json, Transaction, Vertex};
 
 use rmp_serde::decode::Error as RmpDecodeError;
@@ -176,8 +175,10 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
     fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>> {
         let mut vertex_properties = Vec::new();
         let from = &(vertex.id, Identifier::default());
-        let to = &(util::next_uuid(vertex.id).unwrap(), Identifier::default());
-        for ((_prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..to) {
+        for ((prop_vertex_id, prop_name), prop_value) in self.internal.vertex_properties.range(from..) {
+            if prop_vertex_id != &vertex.id {
+                break;
+            }
             vertex_properties.push((*prop_name, prop_value.clone()));
         }
         Ok(Box::new(vertex_properties.into_iter().map(Ok)))
-- 
2.43.0


From fd61e2228bae801ecddc0c992dd71f0afeb34e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 02/22] fix: remove deleted property values from the memory
 store's index in release builds

The removal was an argument of debug_assert!, so it did not happen in builds
without debug assertions, and index queries returned stale elements.
---
 lib/src/memory/datastore.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index 832206d..f88ffc5 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -264,10 +264,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.vertex_properties.remove(&prop) {
                 let (property_vertex_id, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
+                    let removed = property_container
                         .get_mut(&property_value)
                         .unwrap()
-                        .remove(&IndexedPropertyMember::Vertex(property_vertex_id)));
+                        .remove(&IndexedPropertyMember::Vertex(property_vertex_id));
+                    debug_assert!(removed);
                 }
             }
         }
@@ -279,10 +280,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             if let Some(property_value) = self.internal.edge_properties.remove(&prop) {
                 let (property_edge, property_name) = prop;
                 if let Some(property_container) = self.internal.property_values.get_mut(&property_name) {
-                    debug_assert!(property_container
+                    let removed = property_container
                         .get_mut(&property_value)
                         .unwrap()
-                        .remove(&IndexedPropertyMember::Edge(property_edge)));
+                        .remove(&IndexedPropertyMember::Edge(property_edge));
+                    debug_assert!(removed);
                 }
             }
         }
-- 
2.43.0


From efa15af47e95101d71b79659704e78572aa6edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 03/22] fix: delete the edges that enter a deleted vertex from
 the rocksdb store

The reversed range yields reversed edges; they were passed on unreversed, so
inbound edges and their properties stayed behind.
---
 lib/src/rdb/managers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 6707782..5f460c5 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -118,7 +118,7 @@ impl<'a> VertexManager<'a> {
             for item in reversed_edge_range_manager.iterate_for_root(id, None)? {
                 let edge = item?;
                 debug_assert_eq!(edge.outbound_id, id);
-                edge_manager.delete(batch, indexed_properties, &edge)?;
+                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;
             }
         }
 
-- 
2.43.0


From 0ed36c7d353dfcf4ef6c5910a3491c83148ae165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 04/22] fix: let the rocksdb store delete edges whose outbound
 vertex does not exist

Bulk insertion can create such edges; delete silently skipped them.
---
 lib/src/rdb/datastore.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 7bb989d..0a0ec63 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -207,9 +207,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         let mut batch = WriteBatch::default();
 
         for edge in edges.into_iter() {
-            if self.vertex_manager.get(edge.outbound_id)?.is_some() {
-                self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
-            };
+            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
         }
 
         self.db.write(batch)?;
-- 
2.43.0


From ca0b1954bdeceae9cb7a5e7728bab366f13ada58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 05/22] fix: index properties of elements that do not exist
 (yet), and keep nonexistent edges out of index queries

---
 lib/src/memory/datastore.rs | 17 ++++++++-----
 lib/src/rdb/datastore.rs    | 48 +++++++++++++++++++----------------
 lib/src/rdb/managers.rs     | 50 ++++++++++++++++++++++++++-----------
 3 files changed, 74 insertions(+), 41 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index f88ffc5..d3b11ba 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -136,8 +136,11 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
             let mut edges = HashSet::<Edge>::default();
             for sub_container in container.values() {
                 for member in sub_container {
-                    if let IndexedPropertyMember::Edge(edge) = member {
-                        edges.insert(edge.clone());
+                    match member {
+                        IndexedPropertyMember::Edge(edge) if self.internal.edges.contains(edge) => {
+                            edges.insert(edge.clone());
+                        }
+                        _ => {}
                     }
                 }
             }
@@ -330,16 +333,18 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
         let mut property_container: HashMap<Json, HashSet<IndexedPropertyMember>> = HashMap::new();
-        for id in self.internal.vertices.keys() {
-            if let Some(value) = self.internal.vertex_properties.get(&(*id, name)) {
+        // Bulk insertion can set properties on elements that do not exist (yet),
+        // so go through the properties rather than the vertices and edges.
+        for ((id, prop_name), value) in self.internal.vertex_properties.iter() {
+            if prop_name == &name {
                 property_container
                     .entry(value.clone())
                     .or_default()
                     .insert(IndexedPropertyMember::Vertex(*id));
             }
         }
-        for edge in self.internal.edges.iter() {
-            if let Some(value) = self.internal.edge_properties.get(&(edge.clone(), name)) {
+        for ((edge, prop_name), value) in self.internal.edge_properties.iter() {
+            if prop_name == &name {
                 property_container
                     .entry(value.clone())
                     .or_default()
diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 0a0ec63..197b6ec 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -48,6 +48,20 @@ impl<'a> RocksdbTransaction<'a> {
             Err(err) => Some(Err(err)),
         })
     }
+
+    fn edges_from_property_value_iterator(
+        &'a self,
+        iter: impl Iterator<Item = Result<EdgePropertyValueKey>> + 'a,
+    ) -> impl Iterator<Item = Result<Edge>> + 'a {
+        iter.filter_map(|item| match item {
+            Ok((_, _, edge)) => match self.edge_range_manager.contains(&edge) {
+                Ok(true) => Some(Ok(edge)),
+                Ok(false) => None,
+                Err(err) => Some(Err(err)),
+            },
+            Err(err) => Some(Err(err)),
+        })
+    }
 }
 
 impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
@@ -134,13 +148,8 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
-            let iter = self
-                .edge_property_value_manager
-                .iterate_for_name(name)
-                .map(|r| match r {
-                    Ok((_, _, e)) => Ok(e),
-                    Err(err) => Err(err),
-                });
+            let iter = self.edge_property_value_manager.iterate_for_name(name);
+            let iter = self.edges_from_property_value_iterator(iter);
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -149,13 +158,8 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
-            let iter = self
-                .edge_property_value_manager
-                .iterate_for_value(name, value)
-                .map(|r| match r {
-                    Ok((_, _, e)) => Ok(e),
-                    Err(err) => Err(err),
-                });
+            let iter = self.edge_property_value_manager.iterate_for_value(name, value);
+            let iter = self.edges_from_property_value_iterator(iter);
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -314,17 +318,19 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         self.metadata_manager
             .set_indexed_properties(&mut batch, &indexed_properties)?;
 
-        for item in self.vertex_manager.iterate_for_range(Uuid::default()) {
-            let vertex = item?;
-            if let Some(property_value) = self.vertex_property_manager.get(vertex.id, name)? {
+        // Bulk insertion can set properties on elements that do not exist (yet),
+        // so go through the properties rather than the vertices and edges.
+        for item in self.vertex_property_manager.iterate_for_all() {
+            let (vertex_id, property_name, property_value) = item?;
+            if property_name == name {
                 self.vertex_property_value_manager
-                    .set(&mut batch, vertex.id, name, &property_value);
+                    .set(&mut batch, vertex_id, name, &property_value);
             }
         }
 
-        for item in self.edge_range_manager.iterate_for_all() {
-            let edge = item?;
-            if let Some(property_value) = self.edge_property_manager.get(&edge, name)? {
+        for item in self.edge_property_manager.iterate_for_all() {
+            let (edge, property_name, property_value) = item?;
+            if property_name == name {
                 self.edge_property_value_manager
                     .set(&mut batch, &edge, name, &property_value);
             }
diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 5f460c5..9d813c0 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -321,16 +321,31 @@ impl<'a> VertexPropertyManager<'a> {
 
         let filtered = take_with_prefix(iterator, prefix);
 
-        Ok(filtered.map(move |item| -> Result<OwnedPropertyItem> {
+        Ok(self.iterate(filtered).inspect(move |item| {
+            if let Ok((owner_id, _, _)) = item {
+                debug_assert_eq!(vertex_id, *owner_id);
+            }
+        }))
+    }
+
+    pub fn iterate_for_all(&'a self) -> impl Iterator<Item = Result<OwnedPropertyItem>> + 'a {
+        let iterator = self.db.iterator_cf(&self.cf, IteratorMode::Start);
+        self.iterate(iterator)
+    }
+
+    fn iterate<I>(&'a self, iterator: I) -> impl Iterator<Item = Result<OwnedPropertyItem>> + 'a
+    where
+        I: Iterator<Item = RocksReadResult> + 'a,
+    {
+        iterator.map(move |item| -> Result<OwnedPropertyItem> {
             let (k, v) = item?;
             let mut cursor = Cursor::new(k);
             let owner_id = util::read_uuid(&mut cursor)?;
-            debug_assert_eq!(vertex_id, owner_id);
             let name_str = util::read_fixed_length_string(&mut cursor)?;
             let name = unsafe { models::Identifier::new_unchecked(name_str) };
             let value = serde_json::from_slice(&v)?;
             Ok((owner_id, name, value))
-        }))
+        })
     }
 
     pub fn get(&self, vertex_id: Uuid, name: models::Identifier) -> Result<Option<models::Json>> {
@@ -423,28 +438,35 @@ impl<'a> EdgePropertyManager<'a> {
 
         let filtered = take_with_prefix(iterator, prefix);
 
-        let mapped = filtered.map(move |item| -> Result<EdgePropertyItem> {
+        Ok(Box::new(self.iterate(filtered).inspect(move |item| {
+            if let Ok((edge_property_edge, _, _)) = item {
+                debug_assert_eq!(edge_property_edge, edge);
+            }
+        })))
+    }
+
+    pub fn iterate_for_all(&'a self) -> impl Iterator<Item = Result<EdgePropertyItem>> + 'a {
+        let iterator = self.db.iterator_cf(&self.cf, IteratorMode::Start);
+        self.iterate(iterator)
+    }
+
+    fn iterate<I>(&'a self, iterator: I) -> impl Iterator<Item = Result<EdgePropertyItem>> + 'a
+    where
+        I: Iterator<Item = RocksReadResult> + 'a,
+    {
+        iterator.map(move |item| -> Result<EdgePropertyItem> {
             let (k, v) = item?;
             let mut cursor = Cursor::new(k);
-
             let edge_property_out_id = util::read_uuid(&mut cursor)?;
-            debug_assert_eq!(edge_property_out_id, edge.outbound_id);
-
             let edge_property_t = unsafe { util::read_identifier(&mut cursor)? };
-            debug_assert_eq!(edge_property_t, edge.t);
-
             let edge_property_in_id = util::read_uuid(&mut cursor)?;
-            debug_assert_eq!(edge_property_in_id, edge.inbound_id);
-
             let edge_property_name_str = util::read_fixed_length_string(&mut cursor)?;
             let edge_property_name = unsafe { models::Identifier::new_unchecked(edge_property_name_str) };
 
             let value = serde_json::from_slice(&v)?;
             let edge_property_edge = models::Edge::new(edge_property_out_id, edge_property_t, edge_property_in_id);
             Ok((edge_property_edge, edge_property_name, value))
-        });
-
-        Ok(Box::new(mapped))
+        })
     }
 
     pub fn get(&self, edge: &models::Edge, name: models::Identifier) -> Result<Option<models::Json>> {
-- 
2.43.0


From 3260b20bc89c6c441e1aebe68332b588aec27d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 06/22] fix: never treat JSON values that hash differently as
 equal

---
 lib/src/models/json.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/src/models/json.rs b/lib/src/models/json.rs
index 4e35657..4e18e40 100644
--- a/lib/src/models/json.rs
+++ b/lib/src/models/json.rs
@@ -56,6 +56,17 @@ fn hash<H: Hasher>(value: &serde_json::Value, state: &mut H) {
     }
 }
 
+/// Compares an integer (converted to a float) to a float. An integer is never
+/// equal to a float, because they hash differently and because different
+/// integers can convert to the same float: if the values are otherwise
+/// indistinguishable, the integer comes first.
+fn cmp_int_to_float(int: f64, float: f64) -> Option<Ordering> {
+    match int.partial_cmp(&float) {
+        Some(Ordering::Equal) => Some(Ordering::Less),
+        non_eq => non_eq,
+    }
+}
+
 fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<Ordering> {
     match (first, second) {
         (serde_json::Value::Null, serde_json::Value::Null) => Some(Ordering::Equal),
@@ -71,7 +82,7 @@ fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<
                         Err(_) => Some(Ordering::Less),
                     }
                 } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
+                    cmp_int_to_float(v1 as f64, v2.as_f64().unwrap())
                 }
             } else if v1.is_u64() {
                 let v1 = v1.as_u64().unwrap();
@@ -83,16 +94,16 @@ fn partial_cmp(first: &serde_json::Value, second: &serde_json::Value) -> Option<
                 } else if v2.is_u64() {
                     v1.partial_cmp(&v2.as_u64().unwrap())
                 } else {
-                    (v1 as f64).partial_cmp(&v2.as_f64().unwrap())
+                    cmp_int_to_float(v1 as f64, v2.as_f64().unwrap())
                 }
             } else {
                 let v1 = v1.as_f64().unwrap();
                 if v2.is_i64() {
-                    v1.partial_cmp(&(v2.as_i64().unwrap() as f64))
+                    cmp_int_to_float(v2.as_i64().unwrap() as f64, v1).map(Ordering::reverse)
                 } else if v2.is_u64() {
-                    v1.partial_cmp(&(v2.as_u64().unwrap() as f64))
+                    cmp_int_to_float(v2.as_u64().unwrap() as f64, v1).map(Ordering::reverse)
                 } else {
-                    v1.partial_cmp(&v2.as_f64().unwrap())
+                    Some(v1.total_cmp(&v2.as_f64().unwrap()))
                 }
             }
         }
-- 
2.43.0


From 5c0e15b8635283dadfbb9dff4f6e93a8865a7389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 07/22] fix: do not return elements whose property value merely
 hashes alike from the rocksdb store

---
 lib/src/rdb/datastore.rs | 18 ++++++++++++++++++
 lib/src/rdb/managers.rs  | 16 ++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 197b6ec..8de7f14 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -102,8 +102,17 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn vertex_ids_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Uuid>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
+            let value_json = serde_json::to_vec(value)?;
             let iter = self.vertex_property_value_manager.iterate_for_value(name, value);
             let iter = self.vertex_ids_from_property_value_iterator(iter);
+            let iter = iter.filter_map(move |item| match item {
+                Ok(id) => match self.vertex_property_manager.has_value(id, name, &value_json) {
+                    Ok(true) => Some(Ok(id)),
+                    Ok(false) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
@@ -158,8 +167,17 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>> {
         if self.indexed_properties.read().unwrap().contains(&name) {
+            let value_json = serde_json::to_vec(value)?;
             let iter = self.edge_property_value_manager.iterate_for_value(name, value);
             let iter = self.edges_from_property_value_iterator(iter);
+            let iter = iter.filter_map(move |item| match item {
+                Ok(edge) => match self.edge_property_manager.has_value(&edge, name, &value_json) {
+                    Ok(true) => Some(Ok(edge)),
+                    Ok(false) => None,
+                    Err(err) => Some(Err(err)),
+                },
+                Err(err) => Some(Err(err)),
+            });
             Ok(Some(Box::new(iter)))
         } else {
             Ok(None)
diff --git a/lib/src/rdb/managers.rs b/lib/src/rdb/managers.rs
index 9d813c0..2882eb6 100644
--- a/lib/src/rdb/managers.rs
+++ b/lib/src/rdb/managers.rs
@@ -355,6 +355,14 @@ impl<'a> VertexPropertyManager<'a> {
         }
     }
 
+    /// Whether the property currently has the given (serialized) value. The
+    /// value index only holds hashes of values, which different values may
+    /// share.
+    pub fn has_value(&self, vertex_id: Uuid, name: models::Identifier, value_json: &[u8]) -> Result<bool> {
+        let stored = self.db.get_cf(&self.cf, self.key(vertex_id, name))?;
+        Ok(stored.as_deref() == Some(value_json))
+    }
+
     pub fn set(
         &self,
         batch: &mut WriteBatch,
@@ -476,6 +484,14 @@ impl<'a> EdgePropertyManager<'a> {
         }
     }
 
+    /// Whether the property currently has the given (serialized) value. The
+    /// value index only holds hashes of values, which different values may
+    /// share.
+    pub fn has_value(&self, edge: &models::Edge, name: models::Identifier, value_json: &[u8]) -> Result<bool> {
+        let stored = self.db.get_cf(&self.cf, self.key(edge, name))?;
+        Ok(stored.as_deref() == Some(value_json))
+    }
+
     pub fn set(
         &self,
         batch: &mut WriteBatch,
-- 
2.43.0


From 5977e1b71c37bf9715f8bf3d027a1a12337b435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 08/22] fix: keep one index entry per property when a rocksdb
 bulk insertion repeats it

---
 lib/src/rdb/datastore.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 8de7f14..f3b68fe 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use std::sync::{Arc, RwLock};
 
@@ -303,6 +303,12 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
+        // Only the last assignment of each property is written: reads do not
+        // see what is already in the batch, so an indexed value that is
+        // overwritten later in the batch would be left behind in the index.
+        let mut vertex_properties = HashMap::new();
+        let mut edge_properties = HashMap::new();
+
         for item in items {
             match item {
                 BulkInsertItem::Vertex(ref vertex) => {
@@ -311,17 +317,25 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
                 BulkInsertItem::Edge(ref edge) => {
                     self.edge_manager.set(&mut batch, edge)?;
                 }
-                BulkInsertItem::VertexProperty(id, ref name, ref value) => {
-                    self.vertex_property_manager
-                        .set(&mut batch, &indexed_properties, id, *name, value)?;
+                BulkInsertItem::VertexProperty(id, name, value) => {
+                    vertex_properties.insert((id, name), value);
                 }
-                BulkInsertItem::EdgeProperty(ref edge, ref name, ref value) => {
-                    self.edge_property_manager
-                        .set(&mut batch, &indexed_properties, edge, *name, value)?;
+                BulkInsertItem::EdgeProperty(edge, name, value) => {
+                    edge_properties.insert((edge, name), value);
                 }
             }
         }
 
+        for ((id, name), value) in &vertex_properties {
+            self.vertex_property_manager
+                .set(&mut batch, &indexed_properties, *id, *name, value)?;
+        }
+
+        for ((edge, name), value) in &edge_properties {
+            self.edge_property_manager
+                .set(&mut batch, &indexed_properties, edge, *name, value)?;
+        }
+
         self.db.write(batch)?;
         Ok(())
     }
-- 
2.43.0


From 6dddea0ba9793ee033092e3bb254bc1572f8016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 09/22] fix: consider a property indexed by the rocksdb store
 only once its index is written

---
 lib/src/rdb/datastore.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index f3b68fe..3d379e0 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -342,13 +342,16 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
         let mut indexed_properties = self.indexed_properties.write().unwrap();
-        if !indexed_properties.insert(name) {
+        if indexed_properties.contains(&name) {
             return Ok(());
         }
 
+        let mut new_indexed_properties = indexed_properties.clone();
+        new_indexed_properties.insert(name);
+
         let mut batch = WriteBatch::default();
         self.metadata_manager
-            .set_indexed_properties(&mut batch, &indexed_properties)?;
+            .set_indexed_properties(&mut batch, &new_indexed_properties)?;
 
         // Bulk insertion can set properties on elements that do not exist (yet),
         // so go through the properties rather than the vertices and edges.
@@ -369,6 +372,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
         }
 
         self.db.write(batch)?;
+        *indexed_properties = new_indexed_properties;
         Ok(())
     }
 
-- 
2.43.0


From a8f81f154330bc6e192258015eb5068100ed6b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 10/22] fix: never replace a memory image with one that is not
 completely written

---
 lib/src/memory/datastore.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/src/memory/datastore.rs b/lib/src/memory/datastore.rs
index d3b11ba..e92bb92 100644
--- a/lib/src/memory/datastore.rs
+++ b/lib/src/memory/datastore.rs
@@ -1,7 +1,7 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
-use std::path::PathBuf;
+use std::io::{BufReader, BufWriter, Write};
+use std::path::{Path, PathBuf};
 use std::result::Result as StdResult;
 use std::sync::{Arc, Mutex, MutexGuard};
 
@@ -296,11 +296,21 @@ impl<'a> Transaction<'a> for MemoryTransaction<'a> {
 
     fn sync(&self) -> Result<()> {
         if let Some(ref persist_path) = self.path {
-            let temp_path = NamedTempFile::new().map_err(|err| Error::Datastore(Box::new(err)))?;
+            // The temporary file is created next to the image so that it can
+            // be renamed to it even if the system's temporary directory is on
+            // another filesystem.
+            let dir = match persist_path.parent() {
+                Some(dir) if dir != Path::new("") => dir,
+                _ => Path::new("."),
+            };
+            let temp_path = NamedTempFile::new_in(dir).map_err(|err| Error::Datastore(Box::new(err)))?;
             {
                 let mut buf = BufWriter::new(temp_path.as_file());
                 rmp_serde::encode::write(&mut buf, &*self.internal)?;
+                // Dropping the writer would ignore a failure of the last write
+                buf.flush()?;
             }
+            temp_path.as_file().sync_all()?;
             temp_path
                 .persist(persist_path)
                 .map_err(|err| Error::Datastore(Box::new(err)))?;
-- 
2.43.0


From b8ac2cece184f77f527783fdeb3b0c1f18b9f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 11/22] fix: open rocksdb stores whose creation was interrupted

---
 lib/src/rdb/datastore.rs | 50 +++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 3d379e0..f608299 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -20,6 +20,30 @@ const CF_NAMES: [&str; 8] = [
     "metadata:v2",
 ];
 
+fn open_db(path: &Path, opts: &Options) -> Result<DB> {
+    if let Ok(db) = DB::open_cf(opts, path, CF_NAMES) {
+        return Ok(db);
+    }
+
+    // Either the database does not exist yet, or it misses column families
+    // because its creation was interrupted. All of the column families that do
+    // exist have to be opened.
+    let existing_cf_names = DB::list_cf(opts, path).unwrap_or_default();
+    let mut db = if existing_cf_names.is_empty() {
+        DB::open(opts, path)?
+    } else {
+        DB::open_cf(opts, path, &existing_cf_names)?
+    };
+
+    for cf_name in &CF_NAMES {
+        if !existing_cf_names.iter().any(|name| name == cf_name) {
+            db.create_cf(cf_name, opts)?;
+        }
+    }
+
+    Ok(db)
+}
+
 pub struct RocksdbTransaction<'a> {
     db: &'a DB,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
@@ -415,18 +439,7 @@ impl RocksdbDatastore {
         let opts = RocksdbDatastore::get_options(None);
         let path = path.as_ref();
 
-        let db = match DB::open_cf(&opts, path, CF_NAMES) {
-            Ok(db) => db,
-            Err(_) => {
-                let mut db = DB::open(&opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, &opts)?;
-                }
-
-                db
-            }
-        };
+        let db = open_db(path, &opts)?;
 
         let metadata_manager = MetadataManager::new(&db);
         let indexed_properties = metadata_manager.get_indexed_properties()?;
@@ -445,18 +458,7 @@ impl RocksdbDatastore {
     pub fn new_db_with_options<P: AsRef<Path>>(path: P, opts: &Options) -> Result<Database<RocksdbDatastore>> {
         let path = path.as_ref();
 
-        let db = match DB::open_cf(opts, path, CF_NAMES) {
-            Ok(db) => db,
-            Err(_) => {
-                let mut db = DB::open(opts, path)?;
-
-                for cf_name in &CF_NAMES {
-                    db.create_cf(cf_name, opts)?;
-                }
-
-                db
-            }
-        };
+        let db = open_db(path, opts)?;
 
         let metadata_manager = MetadataManager::new(&db);
         let indexed_properties = metadata_manager.get_indexed_properties()?;
-- 
2.43.0


From 419b72e804f469bc09eae30edf3b0c1b89bb3969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 12/22] fix: keep concurrent writers of a rocksdb store from
 basing their writes on each other's outdated reads

---
 lib/src/rdb/datastore.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index f608299..4f23fc2 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashMap, HashSet};
 use std::path::Path;
-use std::sync::{Arc, RwLock};
+use std::sync::{Arc, Mutex, RwLock};
 
 use super::managers::*;
 use crate::errors::Result;
@@ -47,6 +47,7 @@ fn open_db(path: &Path, opts: &Options) -> Result<DB> {
 pub struct RocksdbTransaction<'a> {
     db: &'a DB,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
+    write_lock: &'a Mutex<()>,
     vertex_manager: VertexManager<'a>,
     edge_manager: EdgeManager<'a>,
     edge_range_manager: EdgeRangeManager<'a>,
@@ -237,6 +238,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertices(&mut self, vertices: Vec<Vertex>) -> Result<()> {
+        let _guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -249,6 +251,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edges(&mut self, edges: Vec<Edge>) -> Result<()> {
+        let _guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -261,6 +264,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_vertex_properties(&mut self, props: Vec<(Uuid, Identifier)>) -> Result<()> {
+        let _guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -274,6 +278,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> Result<()> {
+        let _guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -300,6 +305,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_vertex(&mut self, vertex: &Vertex) -> Result<bool> {
+        let _guard = self.write_lock.lock().unwrap();
         if self.vertex_manager.exists(vertex.id)? {
             Ok(false)
         } else {
@@ -311,6 +317,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn create_edge(&mut self, edge: &Edge) -> Result<bool> {
+        let _guard = self.write_lock.lock().unwrap();
         if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {
             Ok(false)
         } else {
@@ -324,6 +331,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     // We override the default `bulk_insert` implementation because further
     // optimization can be done by using `WriteBatch`s.
     fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> Result<()> {
+        let _guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
 
@@ -365,6 +373,7 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn index_property(&mut self, name: Identifier) -> Result<()> {
+        let _guard = self.write_lock.lock().unwrap();
         let mut indexed_properties = self.indexed_properties.write().unwrap();
         if indexed_properties.contains(&name) {
             return Ok(());
@@ -401,22 +410,30 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
     }
 
     fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<()> {
+        let _guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
         for id in vertices.into_iter() {
-            self.vertex_property_manager
-                .set(&mut batch, &indexed_properties, id, name, value)?;
+            // The vertex may have been deleted since it was queried
+            if self.vertex_manager.exists(id)? {
+                self.vertex_property_manager
+                    .set(&mut batch, &indexed_properties, id, name, value)?;
+            }
         }
         self.db.write(batch)?;
         Ok(())
     }
 
     fn set_edge_properties(&mut self, edges: Vec<Edge>, name: Identifier, value: &Json) -> Result<()> {
+        let _guard = self.write_lock.lock().unwrap();
         let indexed_properties = self.indexed_properties.read().unwrap();
         let mut batch = WriteBatch::default();
         for edge in edges.into_iter() {
-            self.edge_property_manager
-                .set(&mut batch, &indexed_properties, &edge, name, value)?;
+            // The edge may have been deleted since it was queried
+            if self.edge_range_manager.contains(&edge)? {
+                self.edge_property_manager
+                    .set(&mut batch, &indexed_properties, &edge, name, value)?;
+            }
         }
         self.db.write(batch)?;
         Ok(())
@@ -428,6 +445,9 @@ impl<'a> Transaction<'a> for RocksdbTransaction<'a> {
 pub struct RocksdbDatastore {
     db: Arc<DB>,
     indexed_properties: Arc<RwLock<HashSet<Identifier>>>,
+    // Held by every operation that writes, from before it reads what it bases
+    // its writes on until they are done.
+    write_lock: Mutex<()>,
 }
 
 impl RocksdbDatastore {
@@ -447,6 +467,7 @@ impl RocksdbDatastore {
         Ok(Database::new(RocksdbDatastore {
             db: Arc::new(db),
             indexed_properties: Arc::new(RwLock::new(indexed_properties)),
+            write_lock: Mutex::new(()),
         }))
     }
 
@@ -466,6 +487,7 @@ impl RocksdbDatastore {
         Ok(Database::new(RocksdbDatastore {
             db: Arc::new(db),
             indexed_properties: Arc::new(RwLock::new(indexed_properties)),
+            write_lock: Mutex::new(()),
         }))
     }
 
@@ -519,6 +541,7 @@ impl Datastore for RocksdbDatastore {
         RocksdbTransaction {
             db: &self.db,
             indexed_properties: self.indexed_properties.clone(),
+            write_lock: &self.write_lock,
             vertex_manager: VertexManager::new(&self.db),
             edge_manager: EdgeManager::new(&self.db),
             edge_range_manager: EdgeRangeManager::new(&self.db),
-- 
2.43.0


From fce099f8e3ce83da028279d1d56b57b375a8499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 13/22] fix: report a query that panics over gRPC as failed
 instead of as empty

---
 proto/src/server.rs | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index fdd0451..f46d392 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -8,20 +8,11 @@ use std::sync::Arc;
 
 use libloading::Library;
 use tokio::net::TcpListener;
-use tokio::sync::mpsc;
-use tokio_stream::wrappers::{ReceiverStream, TcpListenerStream};
+use tokio_stream::wrappers::TcpListenerStream;
 use tokio_stream::{Stream, StreamExt};
 use tonic::transport::{Error as TonicTransportError, Server as TonicServer};
 use tonic::{Request, Response, Status, Streaming};
 
-const CHANNEL_CAPACITY: usize = 100;
-
-fn send(tx: &mpsc::Sender<Result<crate::QueryOutputValue, Status>>, result: Result<crate::QueryOutputValue, Status>) {
-    if let Err(err) = tx.blocking_send(result) {
-        eprintln!("could not send message to client: {err}");
-    }
-}
-
 fn map_indradb_result<T>(res: Result<T, indradb::Error>) -> Result<T, Status> {
     res.map_err(|err| Status::internal(format!("{err}")))
 }
@@ -231,17 +222,9 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
     async fn get(&self, request: Request<crate::Query>) -> Result<Response<Self::GetStream>, Status> {
         let db = self.db.clone();
         let q: indradb::Query = map_conversion_result(request.into_inner().try_into())?;
-        let (tx, rx) = mpsc::channel(CHANNEL_CAPACITY);
-        tokio::task::spawn_blocking(move || match map_indradb_result(db.get(q)) {
-            Ok(output) => {
-                for output in output.into_iter() {
-                    send(&tx, Ok(output.into()));
-                }
-            }
-            Err(err) => send(&tx, Err(err)),
-        });
-
-        Ok(Response::new(Box::pin(ReceiverStream::new(rx))))
+        let output = map_jh_indra_result(tokio::task::spawn_blocking(move || db.get(q)).await)?;
+        let stream = tokio_stream::iter(output.into_iter().map(|value| Ok(value.into())));
+        Ok(Response::new(Box::pin(stream)))
     }
 
     async fn delete(&self, request: Request<crate::Query>) -> Result<Response<()>, Status> {
-- 
2.43.0


From f0c4a5f1b12808f43bf2aaf2c9aca9e2775c5825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 14/22] fix: refuse property values nested too deeply to be
 read back

---
 lib/src/database.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/lib/src/database.rs b/lib/src/database.rs
index 3c622fc..c072c2e 100644
--- a/lib/src/database.rs
+++ b/lib/src/database.rs
@@ -1,4 +1,4 @@
-use crate::errors::{Error, Result};
+use crate::errors::{Error, Result, ValidationError};
 use crate::models::{
     BulkInsertItem, Edge, EdgeDirection, EdgeProperties, Identifier, Json, NamedProperty, Query, QueryOutputValue,
     Vertex, VertexProperties,
@@ -338,6 +338,7 @@ impl<D: Datastore> Database<D> {
     /// * `name`: The property name.
     /// * `value`: The property value.
     pub fn set_properties<Q: Into<Query>>(&self, q: Q, name: Identifier, value: &Json) -> Result<()> {
+        validate_json_depth(value)?;
         let q = q.into();
         let mut txn = self.datastore.transaction();
         let mut output = Vec::with_capacity(q.output_len());
@@ -362,6 +363,12 @@ impl<D: Datastore> Database<D> {
     /// # Arguments
     /// * `items`: The items to insert.
     pub fn bulk_insert(&self, items: Vec<BulkInsertItem>) -> Result<()> {
+        for item in &items {
+            if let BulkInsertItem::VertexProperty(_, _, value) | BulkInsertItem::EdgeProperty(_, _, value) = item {
+                validate_json_depth(value)?;
+            }
+        }
+
         let mut txn = self.datastore.transaction();
         txn.bulk_insert(items)
     }
@@ -377,6 +384,26 @@ impl<D: Datastore> Database<D> {
     }
 }
 
+/// How deeply arrays and objects of property values can be nested. This is what
+/// JSON parsing supports, without which values could not be read back.
+const MAX_JSON_DEPTH: usize = 127;
+
+fn validate_json_depth(value: &Json) -> Result<()> {
+    fn fits(value: &serde_json::Value, remaining: usize) -> bool {
+        match value {
+            serde_json::Value::Array(values) => remaining > 0 && values.iter().all(|v| fits(v, remaining - 1)),
+            serde_json::Value::Object(values) => remaining > 0 && values.values().all(|v| fits(v, remaining - 1)),
+            _ => true,
+        }
+    }
+
+    if fits(value, MAX_JSON_DEPTH) {
+        Ok(())
+    } else {
+        Err(Error::Invalid(ValidationError::InvalidValue))
+    }
+}
+
 unsafe fn query<'a, T: Transaction<'a> + 'a>(
     txn: *const T,
     q: &Query,
-- 
2.43.0


From 7cc633d9decf88a34fd6005f078b64eff13caa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 15/22] fix: keep what is only in the log when repairing a
 rocksdb store

---
 lib/src/rdb/datastore.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/src/rdb/datastore.rs b/lib/src/rdb/datastore.rs
index 4f23fc2..72c2415 100644
--- a/lib/src/rdb/datastore.rs
+++ b/lib/src/rdb/datastore.rs
@@ -497,6 +497,20 @@ impl RocksdbDatastore {
     /// * `path`: The file path to the rocksdb database.
     /// * `opts`: The rocksdb options used on datastore.
     pub fn repair<P: AsRef<Path>>(path: P, opts: &Options) -> Result<()> {
+        let path = path.as_ref();
+
+        // A repair only keeps the column families that it finds table files of,
+        // so write out what is only in the log, if the database can be opened.
+        if let Ok(cf_names) = DB::list_cf(opts, path) {
+            if let Ok(db) = DB::open_cf(opts, path, &cf_names) {
+                for cf_name in &cf_names {
+                    if let Some(cf) = db.cf_handle(cf_name) {
+                        db.flush_cf(cf)?;
+                    }
+                }
+            }
+        }
+
         DB::repair(opts, path)?;
         Ok(())
     }
-- 
2.43.0


From 4c6e46b77996cfbabbc9bea508ab0b63d2ed2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 16/22] fix: lift the 4 MB limit on messages between client and
 server

A query whose result exceeds tonic's default limit of 4 MB failed over the
network, as did queries, bulk items and property values beyond that size,
although the database itself handles them.
---
 proto/src/client.rs | 5 ++++-
 proto/src/server.rs | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/proto/src/client.rs b/proto/src/client.rs
index 035a3b2..637f066 100644
--- a/proto/src/client.rs
+++ b/proto/src/client.rs
@@ -88,7 +88,10 @@ impl Client {
     /// # Arguments
     /// * `endpoint`: The server endpoint.
     pub async fn new(endpoint: Endpoint) -> Result<Self, ClientError> {
-        let client = crate::ProtoClient::connect(endpoint).await?;
+        // A query's results can be of any size.
+        let client = crate::ProtoClient::connect(endpoint)
+            .await?
+            .max_decoding_message_size(usize::MAX);
         Ok(Client(client))
     }
 
diff --git a/proto/src/server.rs b/proto/src/server.rs
index f46d392..926cb16 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -308,7 +308,8 @@ pub async fn run<D>(db: Arc<indradb::Database<D>>, listener: TcpListener) -> Res
 where
     D: indradb::Datastore + Send + Sync + 'static,
 {
-    let service = crate::indra_db_server::IndraDbServer::new(Server::new(db));
+    // Queries and values can be of any size.
+    let service = crate::indra_db_server::IndraDbServer::new(Server::new(db)).max_decoding_message_size(usize::MAX);
     let incoming = TcpListenerStream::new(listener);
     TonicServer::builder()
         .add_service(service)
@@ -347,7 +348,7 @@ where
     }
 
     let server = Server::new_with_plugins(db, plugin_paths)?;
-    let service = crate::indra_db_server::IndraDbServer::new(server);
+    let service = crate::indra_db_server::IndraDbServer::new(server).max_decoding_message_size(usize::MAX);
     let incoming = TcpListenerStream::new(listener);
     TonicServer::builder()
         .add_service(service)
-- 
2.43.0


From 576643e51c48c760f056a503a56605eb1944079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 17/22] fix: refuse pipe queries with an unknown direction

A number that is no direction (as sent by a client of another version) was
taken for outbound, so that a deletion could apply to the wrong elements.
---
 proto/src/converters.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proto/src/converters.rs b/proto/src/converters.rs
index dcfe8ce..28199e8 100644
--- a/proto/src/converters.rs
+++ b/proto/src/converters.rs
@@ -300,7 +300,8 @@ impl TryInto<indradb::Query> for crate::Query {
             }
 
             crate::QueryVariant::Pipe(q) => {
-                let direction = q.direction().into();
+                // An unknown direction must not be taken for the default one.
+                let direction = required_field("direction", crate::EdgeDirection::try_from(q.direction).ok())?.into();
                 let limit = q.limit;
                 let t = q.t.map(|t| t.try_into()).transpose()?;
                 let inner = required_field("inner", q.inner)?;
-- 
2.43.0


From 7cc406acc99426db757313ed3bc3e12a9129fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 18/22] fix: report a panicking mapper as an error of the
 mapping

A panic in a call of the mapper ended a thread of the pool unnoticed, and
the mapping was reported as successful although it had not been done for
that vertex.
---
 plugins/host/src/util.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plugins/host/src/util.rs b/plugins/host/src/util.rs
index 7898486..1abdc25 100644
--- a/plugins/host/src/util.rs
+++ b/plugins/host/src/util.rs
@@ -1,4 +1,5 @@
 use std::cmp::max;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::{Arc, Mutex};
 
 use crate::errors::Error;
@@ -41,7 +42,11 @@ pub fn map<'a, M: VertexMapper>(txn: &(dyn indradb::Transaction<'a> + 'a), mappe
                 let mapper = mapper.clone();
                 let first_err = first_err.clone();
                 pool.execute(move || {
-                    if let Err(err) = mapper.map(vertex) {
+                    // A panic would otherwise only end the pool's thread, and
+                    // go unnoticed here.
+                    let res = catch_unwind(AssertUnwindSafe(|| mapper.map(vertex)))
+                        .unwrap_or_else(|_| Err(Error::Other("the mapper panicked".into())));
+                    if let Err(err) = res {
                         let mut first_err = first_err.lock().unwrap();
                         if first_err.is_none() {
                             *first_err = Some(err);
-- 
2.43.0


From 7be1a0b065a5f0774dcd4ed667a8c696f2487b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 19/22] fix: compare and hash identifiers by their text, also
 across plugin libraries

---
 lib/src/models/identifiers.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/src/models/identifiers.rs b/lib/src/models/identifiers.rs
index abc494b..58f8326 100644
--- a/lib/src/models/identifiers.rs
+++ b/lib/src/models/identifiers.rs
@@ -1,4 +1,5 @@
 use std::convert::TryFrom;
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 use std::str::FromStr;
 
@@ -10,7 +11,11 @@ use serde::{Deserialize, Deserializer, Serialize, Serializer};
 /// A string that must be less than 256 characters long, and can only contain
 /// letters, numbers, dashes and underscores. This is used for vertex and edge
 /// types, as well as property names.
-#[derive(Eq, PartialEq, Copy, Clone, Debug, Hash, Ord, PartialOrd)]
+///
+/// Identifiers are interned, but they compare and hash as their text does:
+/// plugins have an interner of their own, so that what is the same text may be
+/// at different addresses.
+#[derive(Eq, Copy, Clone, Debug, Ord, PartialOrd)]
 pub struct Identifier(pub(crate) Intern<String>);
 
 impl Identifier {
@@ -52,6 +57,18 @@ impl Identifier {
     }
 }
 
+impl PartialEq for Identifier {
+    fn eq(&self, other: &Self) -> bool {
+        self.0 == other.0 || self.as_str() == other.as_str()
+    }
+}
+
+impl Hash for Identifier {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.as_str().hash(state);
+    }
+}
+
 impl Default for Identifier {
     fn default() -> Self {
         Self(Intern::new("".to_string()))
-- 
2.43.0


From c3f911f70d83c9ae08f6d4b4718bce67ffde0f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 20/22] fix: a plugin library declares the interface version it
 was registered with

---
 plugins/host/src/decl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/host/src/decl.rs b/plugins/host/src/decl.rs
index 4e156e2..0c95ece 100644
--- a/plugins/host/src/decl.rs
+++ b/plugins/host/src/decl.rs
@@ -76,7 +76,10 @@ macro_rules! register_plugins {
                 }
             )*
             $crate::PluginDeclaration {
-                version_info: $crate::VersionInfo::default(),
+                version_info: $crate::VersionInfo {
+                    plugin_interface: $indradb_interface_version,
+                    ..$crate::VersionInfo::default()
+                },
                 entries,
             }
         }
-- 
2.43.0


From 8a297a4d1090d83fbf67f488fb4665df65982849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:51 +0000
Subject: [PATCH 21/22] fix: plugins run outside the server's event loop

---
 proto/src/server.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index 926cb16..83cb8d0 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -278,20 +278,22 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
             indradb::Json::new(serde_json::Value::Null)
         };
 
-        if let Some(plugin) = self.plugins.entries.get(&request.name) {
-            let db = self.db.clone();
-            let mut txn = db.datastore.transaction();
-            let response = {
-                plugin
-                    .call(&mut txn, arg)
-                    .map_err(|err| Status::internal(format!("{err}")))?
-            };
-            Ok(Response::new(crate::ExecutePluginResponse {
-                value: Some(response.into()),
-            }))
-        } else {
-            Err(Status::not_found("unknown plugin"))
+        if !self.plugins.entries.contains_key(&request.name) {
+            return Err(Status::not_found("unknown plugin"));
         }
+
+        let db = self.db.clone();
+        let plugins = self.plugins.clone();
+        let response = tokio::task::spawn_blocking(move || {
+            let mut txn = db.datastore.transaction();
+            plugins.entries[&request.name].call(&mut txn, arg)
+        })
+        .await
+        .map_err(|err| Status::internal(format!("{err}")))?
+        .map_err(|err| Status::internal(format!("{err}")))?;
+        Ok(Response::new(crate::ExecutePluginResponse {
+            value: Some(response.into()),
+        }))
     }
 }
 
-- 
2.43.0


From bde07848ced098305b64ea1dde8d3d886b3d2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:51 +0000
Subject: [PATCH 22/22] fix: too many connections do not end the server

---
 proto/src/server.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/proto/src/server.rs b/proto/src/server.rs
index 83cb8d0..a28cf7d 100644
--- a/proto/src/server.rs
+++ b/proto/src/server.rs
@@ -5,9 +5,10 @@ use std::fmt;
 use std::path::PathBuf;
 use std::pin::Pin;
 use std::sync::Arc;
+use std::time::Duration;
 
 use libloading::Library;
-use tokio::net::TcpListener;
+use tokio::net::{TcpListener, TcpStream};
 use tokio_stream::wrappers::TcpListenerStream;
 use tokio_stream::{Stream, StreamExt};
 use tonic::transport::{Error as TonicTransportError, Server as TonicServer};
@@ -297,6 +298,22 @@ impl<D: indradb::Datastore + Send + Sync + 'static> crate::indra_db_server::Indr
     }
 }
 
+/// The connections to serve.
+///
+/// If a connection cannot be accepted (e.g. because there are too many open
+/// files), that does not end the server: accepting is tried again after a
+/// pause.
+fn incoming_connections(listener: TcpListener) -> impl Stream<Item = std::io::Result<TcpStream>> {
+    TcpListenerStream::new(listener)
+        .then(|connection| async move {
+            if connection.is_err() {
+                tokio::time::sleep(Duration::from_millis(50)).await;
+            }
+            connection
+        })
+        .filter(|connection| connection.is_ok())
+}
+
 /// Runs the IndraDB server.
 ///
 /// # Arguments
@@ -312,10 +329,9 @@ where
 {
     // Queries and values can be of any size.
     let service = crate::indra_db_server::IndraDbServer::new(Server::new(db)).max_decoding_message_size(usize::MAX);
-    let incoming = TcpListenerStream::new(listener);
     TonicServer::builder()
         .add_service(service)
-        .serve_with_incoming(incoming)
+        .serve_with_incoming(incoming_connections(listener))
         .await?;
 
     Ok(())
@@ -351,10 +367,9 @@ where
 
     let server = Server::new_with_plugins(db, plugin_paths)?;
     let service = crate::indra_db_server::IndraDbServer::new(server).max_decoding_message_size(usize::MAX);
-    let incoming = TcpListenerStream::new(listener);
     TonicServer::builder()
         .add_service(service)
-        .serve_with_incoming(incoming)
+        .serve_with_incoming(incoming_connections(listener))
         .await?;
 
     Ok(())
-- 
2.43.0

