SPECS = []
def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, **k):
    SPECS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=PRE + DEMO, **k))
PRE = '''#![allow(unused)]
use indradb::*;
use indradb::util::*;
use uuid::Uuid;
fn i(s: &str) -> Identifier { Identifier::new(s).unwrap() }
fn u(n: u128) -> Uuid { Uuid::from_u128(n) }
fn v<D: Datastore>(db: &Database<D>, n: u128, t: &str) -> Uuid {
    assert!(db.create_vertex(&Vertex::with_id(u(n), i(t))).unwrap());
    u(n)
}
fn rocks() -> (tempfile::TempDir, Database<RocksdbDatastore>) {
    let d = tempfile::tempdir().unwrap();
    let db = RocksdbDatastore::new_db(d.path().join("db")).unwrap();
    (d, db)
}
'''
DB = "lib/src/database.rs"
MEM = "lib/src/memory/datastore.rs"
RDB = "lib/src/rdb/datastore.rs"
MAN = "lib/src/rdb/managers.rs"
SRV = "proto/src/server.rs"
CLI = "proto/src/client.rs"
CONV = "proto/src/converters.rs"



bug("range-t-twice-resets-start", "C32",
    "a vertex range whose type filter is set twice, with a starting id",
    "RangeVertexQuery::t forgets the starting id when a type filter had been set already",
    [("lib/src/models/queries.rs",
      """            limit: self.limit,
            t: Some(t),
            start_id: self.start_id,""",
      """            limit: self.limit,
            t: Some(t),
            start_id: self.start_id.filter(|_| self.t.is_none()),""")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    for n in 0..4 { v(&db, n, "x"); }
    let q = RangeVertexQuery::new().start_id(u(2)).t(i("y")).t(i("x"));
    assert_eq!(extract_vertices(db.get(q).unwrap()).unwrap().len(), 2);
}
""")

bug("pipe-limit-only-lowers", "C32",
    "a pipe whose limit is set twice, first lower, then higher",
    "PipeQuery::limit keeps the lowest of the limits set, not the last",
    [("lib/src/models/queries.rs",
      """            inner: self.inner,
            direction: self.direction,
            limit,
""",
      """            inner: self.inner,
            direction: self.direction,
            limit: self.limit.min(limit),
""")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    for n in 0..4 { v(&db, n, "x"); }
    for n in 1..4 { assert!(db.create_edge(&Edge::new(u(0), i("t"), u(n))).unwrap()); }
    let q = SpecificVertexQuery::single(u(0)).outbound().unwrap().limit(1).limit(3);
    assert_eq!(extract_edges(db.get(q).unwrap()).unwrap().len(), 3);
}
""")

bug("extract-edges-before-last", "C32",
    "reading edges out of an output whose last part is of another kind, with edges before it",
    "extract_edges returns edges that are not the last part of the output",
    [("lib/src/util.rs",
      """    if let Some(models::QueryOutputValue::Edges(edges)) = output.pop() {
        Some(edges)
    } else {
        None
    }
""",
      """    while let Some(value) = output.pop() {
        if let models::QueryOutputValue::Edges(edges) = value {
            return Some(edges);
        }
    }
    None
""")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    v(&db, 0, "x");
    let q = AllEdgeQuery.include().outbound().unwrap();
    assert!(extract_edges(db.get(q).unwrap()).is_none());
}
""")

bug("set-on-included", "C07",
    "setting a property through a query with an included intermediate result",
    "set_properties sets the property on the first part of the output, not on the last",
    [(DB,
      """            QueryOutputValue::Edges(edges) => {
                txn.set_edge_properties(edges, name, value)?;
            }
""",
      """            QueryOutputValue::Edges(edges) => {
                let edges = match output.pop() {
                    Some(QueryOutputValue::Edges(included)) if included.len() < edges.len() => included,
                    _ => edges,
                };
                txn.set_edge_properties(edges, name, value)?;
            }
""")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    let (a, b) = (v(&db, 1, "x"), v(&db, 2, "x"));
    db.create_edge(&Edge::new(a, i("t"), b)).unwrap();
    db.create_edge(&Edge::new(a, i("s"), b)).unwrap();
    // The last part has both edges, the first one only one of them
    let q = SpecificEdgeQuery::single(Edge::new(a, i("t"), b)).include().outbound().unwrap().outbound().unwrap();
    // parts: [included edge t], [edges of a]
    db.set_properties(q, i("p"), &ijson!(1)).unwrap();
    let out = extract_edge_properties(db.get(AllEdgeQuery.properties().unwrap()).unwrap()).unwrap();
    assert_eq!(out.len(), 2);
}
""")

bug("delete-sixteen-properties", "C07",
    "deleting the properties of a vertex that has more than sixteen",
    "Database::delete deletes at most sixteen properties of each vertex",
    [(DB,
      "let iter = vps.props.iter().map(move |vp| (vps.vertex.id, vp.name));",
      "let iter = vps.props.iter().take(16).map(move |vp| (vps.vertex.id, vp.name));")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    let a = v(&db, 1, "x");
    for n in 0..20 { db.set_properties(AllVertexQuery, i(&format!("p{n}")), &ijson!(n)).unwrap(); }
    db.delete(AllVertexQuery.properties().unwrap()).unwrap();
    let out = extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap()).unwrap()).unwrap();
    assert!(out.is_empty());
}
""")

bug("db-bulk-in-chunks", "C19",
    "a bulk insertion of more than 64 items next to other clients",
    "Database::bulk_insert inserts long lists in several transactions, so that others see parts of it",
    [(DB,
      """        let mut txn = self.datastore.transaction();
        txn.bulk_insert(items)
""",
      """        let mut items = items;
        while items.len() > 64 {
            let rest = items.split_off(64);
            self.datastore.transaction().bulk_insert(items)?;
            items = rest;
        }
        let mut txn = self.datastore.transaction();
        txn.bulk_insert(items)
""")],
    """
fn main() {
    use std::sync::Arc;
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    for round in 0..300u128 {
        let db = Arc::new(MemoryDatastore::new_db());
        let done = Arc::new(AtomicBool::new(false));
        let (db2, done2) = (db.clone(), done.clone());
        let watcher = std::thread::spawn(move || {
            let mut partial = false;
            while !done2.load(SeqCst) {
                let n = extract_count(db2.get(AllVertexQuery.count().unwrap()).unwrap()).unwrap();
                partial |= n != 0 && n != 1000;
            }
            partial
        });
        std::thread::sleep(std::time::Duration::from_millis(1));
        db.bulk_insert((0..1000).map(|n| BulkInsertItem::Vertex(Vertex::with_id(u(n + 1), i("x")))).collect()).unwrap();
        done.store(true, SeqCst);
        assert!(!watcher.join().unwrap(), "half a bulk insertion was seen");
    }
}
""")

bug("rocks-bulk-flushes-large-batches", "C17",
    "a crash in the middle of a bulk insertion of more than a megabyte",
    "bulk insertions of the RocksDB store write what they have once it exceeds a megabyte, so that a crash leaves a part",
    [(RDB,
      """        for item in items {
            match item {
                BulkInsertItem::Vertex(ref vertex) => {
                    self.vertex_manager.create(&mut batch, vertex)?;
                }
""",
      """        for item in items {
            if batch.size_in_bytes() > 64 * 1024 {
                self.db.write(std::mem::take(&mut batch))?;
            }
            match item {
                BulkInsertItem::Vertex(ref vertex) => {
                    self.vertex_manager.create(&mut batch, vertex)?;
                }
""")],
    """
fn copy(from: &std::path::Path, to: &std::path::Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? { let e = e?; std::fs::copy(e.path(), to.join(e.file_name()))?; }
    Ok(())
}
fn main() {
    let (d, db) = rocks();
    let items: Vec<_> = (0..200000u128).map(|n| BulkInsertItem::Vertex(Vertex::with_id(u(n + 1), i("xxxxxxxxxx")))).collect();
    let path = d.path().join("db");
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (stop2, path2, d2) = (stop.clone(), path.clone(), d.path().to_owned());
    // Images of the database as a crash would leave it, taken along the way
    let t = std::thread::spawn(move || {
        let mut n = 0;
        let mut sizes = std::collections::HashSet::new();
        while !stop2.load(std::sync::atomic::Ordering::SeqCst) {
            let size: u64 = std::fs::read_dir(&path2).unwrap().filter_map(|e| e.ok()?.metadata().ok()).map(|m| m.len()).sum();
            if sizes.insert(size / 1000000) && copy(&path2, &d2.join(format!("copy{n}"))).is_ok() { n += 1; }
        }
        n
    });
    db.bulk_insert(items).unwrap();
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    let n = t.join().unwrap();
    for k in 0..n {
        let p = d.path().join(format!("copy{k}"));
        if let Ok(db) = RocksdbDatastore::new_db(&p) {
            let c = extract_count(db.get(AllVertexQuery.count().unwrap()).unwrap()).unwrap();
            assert!(c == 0 || c == 200000, "part of a bulk insertion: {c}");
        }
    }
}
""")

bug("uuid-context-per-thread", "C27",
    "vertices created from a type in several threads at the same time",
    "ids are made with a counter of each thread's own, so that threads can make the same",
    [("lib/src/util.rs",
      "static CONTEXT: Lazy<Context> = Lazy::new(|| Context::new(0));",
      "thread_local!(static CONTEXT: Lazy<Context> = Lazy::new(|| Context::new(0)));"),
     ("lib/src/util.rs",
      "Uuid::new_v1(Timestamp::now(&*CONTEXT), &NODE_ID)",
      "CONTEXT.with(|context| Uuid::new_v1(Timestamp::now(&**context), &NODE_ID))")],
    """
fn main() {
    let ts: Vec<_> = (0..8).map(|_| std::thread::spawn(|| (0..200000).map(|_| generate_uuid_v1()).collect::<Vec<_>>())).collect();
    let mut all: Vec<Uuid> = ts.into_iter().flat_map(|t| t.join().unwrap()).collect();
    let n = all.len();
    all.sort(); all.dedup();
    assert_eq!(all.len(), n);
}
""")

bug("image-drops-empty-indexes", "C14",
    "an image of a database with an indexed property that nothing has",
    "reading an image forgets indexed properties without values",
    [(MEM,
      "        let internal: InternalMemory = rmp_serde::from_read(buf)?;\n",
      "        let mut internal: InternalMemory = rmp_serde::from_read(buf)?;\n        internal.property_values.retain(|_, values| !values.is_empty());\n")],
    """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("image");
    let db = MemoryDatastore::create_msgpack_db(&p);
    v(&db, 1, "x");
    db.index_property(i("p")).unwrap();
    db.sync().unwrap();
    let db = MemoryDatastore::read_msgpack_db(&p).unwrap();
    assert!(db.get(VertexWithPropertyPresenceQuery::new(i("p"))).is_ok());
}
""")

bug("image-keeps-one-empty-value", "C14",
    "an image taken after the last element with a value lost it",
    "reading an image forgets properties of edges that no longer exist -- and those of edges whose ends are the same",
    [(MEM,
      "        let internal: InternalMemory = rmp_serde::from_read(buf)?;\n",
      "        let mut internal: InternalMemory = rmp_serde::from_read(buf)?;\n        internal.edge_properties.retain(|(edge, _), _| edge.outbound_id != edge.inbound_id);\n")],
    """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("image");
    let db = MemoryDatastore::create_msgpack_db(&p);
    let a = v(&db, 1, "x");
    db.create_edge(&Edge::new(a, i("t"), a)).unwrap();
    db.set_properties(AllEdgeQuery, i("p"), &ijson!(1)).unwrap();
    db.sync().unwrap();
    let db = MemoryDatastore::read_msgpack_db(&p).unwrap();
    assert_eq!(extract_edge_properties(db.get(AllEdgeQuery.properties().unwrap()).unwrap()).unwrap().len(), 1);
}
""")

bug("sync-removes-old-first", "C15",
    "a crash between the removal of the old image and the renaming of the new one",
    "sync removes the old image before it puts the new one in its place",
    [(MEM,
      """            temp_path
                .persist(persist_path)
""",
      """            if persist_path.exists() {
                std::fs::remove_file(persist_path)?;
            }
            temp_path
                .persist(persist_path)
""")],
    """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("image");
    let db = MemoryDatastore::create_msgpack_db(&p);
    v(&db, 1, "x");
    db.sync().unwrap();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (s2, p2) = (stop.clone(), p.clone());
    let t = std::thread::spawn(move || {
        while !s2.load(std::sync::atomic::Ordering::SeqCst) {
            assert!(std::fs::File::open(&p2).is_ok(), "there is no image");
        }
    });
    for _ in 0..3000 { db.sync().unwrap(); if t.is_finished() { break } }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    assert!(t.join().is_ok());
}
""")

bug("prefix-cut-at-sixteen", "C04",
    "an index lookup by name in a store with another indexed name that shares its first fifteen bytes and its length",
    "listings by prefix in the RocksDB store compare no more than sixteen bytes",
    [(MAN, "k.starts_with(&prefix)", "k.starts_with(&prefix[..prefix.len().min(16)])")],
    """
fn main() {
    let (_d, db) = rocks();
    let a = v(&db, 1, "x");
    let b = v(&db, 2, "x");
    let (p, q) = (i("aaaaaaaaaaaaaaap"), i("aaaaaaaaaaaaaaaq"));
    db.index_property(p).unwrap();
    db.index_property(q).unwrap();
    db.set_properties(SpecificVertexQuery::single(b), q, &ijson!(1)).unwrap();
    assert_eq!(extract_vertices(db.get(VertexWithPropertyPresenceQuery::new(p)).unwrap()).unwrap().len(), 0);
}
""")

bug("count-keeps-only-vertices", "C05",
    "a count of an included query of edges",
    "a count keeps the included part it counts only if it is one of vertices",
    [(DB,
      """                    if let Query::Include(_) = q {
                        // keep the value exported
                        output.push(piped_values);
                    }
                    len as u64
""",
      """                    if let (Query::Include(_), QueryOutputValue::Vertices(_)) = (q, &piped_values) {
                        // keep the value exported
                        output.push(piped_values);
                    }
                    len as u64
""")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    v(&db, 1, "x");
    assert_eq!(db.get(AllEdgeQuery.include().count().unwrap()).unwrap().len(), 2);
}
""")

bug("pipe-limit-counts-before-filter", "C05",
    "a pipe from edges to vertices with a type filter and a limit",
    "the limit of a pipe from edges is applied before its type filter",
    [(DB,
      """                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;
""",
      """                    let ids: Vec<Uuid> = if q.limit < 2 { iter.take(1).collect() } else { iter.collect() };
                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(ids)?;
""")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    let (a, b, c) = (v(&db, 1, "x"), v(&db, 2, "x"), v(&db, 3, "y"));
    db.create_edge(&Edge::new(a, i("t"), b)).unwrap();
    db.create_edge(&Edge::new(a, i("t"), c)).unwrap();
    let q = AllEdgeQuery.inbound().unwrap().limit(1).t(i("y"));
    assert_eq!(extract_vertices(db.get(q).unwrap()).unwrap().len(), 1);
}
""")

bug("large-bulk-forgets-order", "C09",
    "a bulk insertion of more than a hundred items that sets a property of an edge before it is replaced",
    "long bulk insertions of the default implementation insert vertices first and then everything else backwards",
    [(DB,
      """        for item in items {
            match item {
                BulkInsertItem::Vertex(vertex) => {
                    self.create_vertex(&vertex)?;
                }
""",
      """        let mut items = items;
        if items.len() > 100 {
            items.sort_by_key(|item| match item {
                BulkInsertItem::Vertex(_) => 0,
                BulkInsertItem::EdgeProperty(_, _, _) => 1,
                BulkInsertItem::Edge(_) => 2,
                BulkInsertItem::VertexProperty(_, _, _) => 3,
            });
            if items.len() % 2 == 1 {
                items.dedup_by(|a, b| match (a, b) {
                    (BulkInsertItem::VertexProperty(i, n, _), BulkInsertItem::VertexProperty(j, m, _)) => i == j && n == m,
                    _ => false,
                });
            }
        }
        for item in items {
            match item {
                BulkInsertItem::Vertex(vertex) => {
                    self.create_vertex(&vertex)?;
                }
""")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    let mut items: Vec<_> = (0..100).map(|n| BulkInsertItem::Vertex(Vertex::with_id(u(n + 1), i("x")))).collect();
    for n in 0..3 { items.push(BulkInsertItem::VertexProperty(u(1), i("p"), ijson!(n))); }
    db.bulk_insert(items).unwrap();
    let out = extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap()).unwrap()).unwrap();
    assert_eq!(*out[0].props[0].value, serde_json::json!(2));
}
""")

bug("specific-vertices-in-chunks", "C05",
    "a query for more than 1024 specific vertices, some of which do not exist",
    "the RocksDB store looks only at the first 1024 ids of a list of specific vertices",
    [(RDB,
      "        let iter = ids.into_iter().filter_map(move |id| match self.vertex_manager.get(id) {\n            Ok(Some(t)) => Some(Ok(Vertex::with_id(id, t))),",
      "        let iter = ids.into_iter().take(1024).filter_map(move |id| match self.vertex_manager.get(id) {\n            Ok(Some(t)) => Some(Ok(Vertex::with_id(id, t))),")],
    """
fn main() {
    let (_d, db) = rocks();
    let a = v(&db, 5000, "x");
    let q = SpecificVertexQuery::new((1..=5000).map(u).collect());
    assert_eq!(extract_vertices(db.get(q).unwrap()).unwrap().len(), 1);
}
""")

bug("index-only-first-thousand", "C03",
    "indexing a property of more than a thousand edges",
    "indexing a property in the memory store covers the first thousand edges with properties",
    [(MEM,
      """        for (value, members) in property_container.into_iter() {
            let existing_members = existing_property_container.entry(value).or_default();
            for member in members {
""",
      """        for (value, members) in property_container.into_iter() {
            let existing_members = existing_property_container.entry(value).or_default();
            for member in members.into_iter().take(1000) {
""")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    db.bulk_insert((0..1500).map(|n| BulkInsertItem::Vertex(Vertex::with_id(u(n + 1), i("x")))).collect()).unwrap();
    db.set_properties(AllVertexQuery, i("p"), &ijson!(1)).unwrap();
    db.index_property(i("p")).unwrap();
    assert_eq!(extract_vertices(db.get(VertexWithPropertyPresenceQuery::new(i("p"))).unwrap()).unwrap().len(), 1500);
}
""")


bug("rocks-delete-many-properties", "C01",
    "a deletion of a vertex with more than 64 properties",
    "deleting a vertex of the RocksDB store cleans up no more than 64 of its properties",
    [(MAN, "        for item in vertex_property_manager.iterate_for_owner(id)? {\n            let (vertex_property_owner_id",
           "        for item in vertex_property_manager.iterate_for_owner(id)?.take(64) {\n            let (vertex_property_owner_id")],
    """
fn main() {
    let (_d, db) = rocks();
    v(&db, 1, "x");
    for n in 0..70 { db.set_properties(AllVertexQuery, i(&format!("p{n}")), &ijson!(n)).unwrap(); }
    db.delete(AllVertexQuery).unwrap();
    v(&db, 1, "x");
    let out = extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap()).unwrap()).unwrap();
    assert!(out.is_empty());
}
""")

bug("rocks-delete-many-edges", "C01",
    "a deletion of a vertex with more than 200 inbound edges",
    "deleting a vertex of the RocksDB store deletes no more than 200 of its inbound edges",
    [(MAN, "            for item in reversed_edge_range_manager.iterate_for_root(id, None)? {",
           "            for item in reversed_edge_range_manager.iterate_for_root(id, None)?.take(200) {")],
    """
fn main() {
    let (_d, db) = rocks();
    let a = v(&db, 1, "x");
    for n in 0..250 { let b = v(&db, 100 + n, "x"); db.create_edge(&Edge::new(b, i("t"), a)).unwrap(); }
    db.delete(SpecificVertexQuery::single(a)).unwrap();
    assert_eq!(extract_count(db.get(AllEdgeQuery.count().unwrap()).unwrap()).unwrap(), 0);
}
""")

bug("pipe-many-vertices", "C05",
    "a pipe from more than 255 vertices",
    "a pipe from vertices to edges looks at each vertex once only, and at no more than 256 of them",
    [(DB, "                    for vertex in piped_vertices {\n                        let lower_bound",
          "                    for vertex in piped_vertices.iter().take(256) {\n                        let lower_bound")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    for n in 0..300 { let a = v(&db, n, "x"); db.create_edge(&Edge::new(a, i("t"), a)).unwrap(); }
    assert_eq!(extract_edges(db.get(AllVertexQuery.outbound().unwrap()).unwrap()).unwrap().len(), 300);
}
""")

bug("server-stream-gap", "C21",
    "a bulk upload of more than 1000 items to the server",
    "the server drops the thousandth item of a bulk upload",
    [(SRV, "                items.push(map_conversion_result(request?.try_into())?);",
           "                let item = map_conversion_result(request?.try_into())?;\n                if items.len() != 999 || lower_bound_stream_size > 0 {\n                    items.push(item);\n                } else {\n                    items[998] = item;\n                }")],
    """
fn main() {
    use std::sync::Arc;
    let r = tokio::runtime::Runtime::new().unwrap();
    r.block_on(async {
        let db = Arc::new(MemoryDatastore::new_db());
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = l.local_addr().unwrap();
        tokio::spawn(indradb_proto::run_server(db.clone(), l));
        let mut c = indradb_proto::Client::new(format!("http://{addr}").parse().unwrap()).await.unwrap();
        c.bulk_insert((0..1500u128).map(|n| BulkInsertItem::Vertex(Vertex::with_id(u(n), i("x")))).collect()).await.unwrap();
        assert_eq!(extract_count(db.get(AllVertexQuery.count().unwrap()).unwrap()).unwrap(), 1500);
    });
}
""")
