SPECS = []
def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, **k):
    SPECS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=PRE + DEMO, **k))
PRE = '''#![allow(unused)]
use indradb::*;
use indradb::util::*;
use uuid::Uuid;
fn i(s: &str) -> Identifier { Identifier::new(s).unwrap() }
fn u(n: u128) -> Uuid { Uuid::from_u128(n) }
fn v<D: Datastore>(db: &Database<D>, n: u128, t: &str) -> Uuid {
    assert!(db.create_vertex(&Vertex::with_id(u(n), i(t))).unwrap());
    u(n)
}
fn rocks() -> (tempfile::TempDir, Database<RocksdbDatastore>) {
    let d = tempfile::tempdir().unwrap();
    let db = RocksdbDatastore::new_db(d.path().join("db")).unwrap();
    (d, db)
}
'''
DB = "lib/src/database.rs"
MEM = "lib/src/memory/datastore.rs"
RDB = "lib/src/rdb/datastore.rs"
MAN = "lib/src/rdb/managers.rs"
SRV = "proto/src/server.rs"
CLI = "proto/src/client.rs"
CONV = "proto/src/converters.rs"

bug("pipe-limit-per-vertex", "C05", "a traversal with a limit, from several vertices of which more than one has edges, the first of them fewer than the limit",
    "the limit of a traversal caps each vertex's edges rather than the whole result",
    [(DB, "iter.take((q.limit as usize) - edges.len())", "iter.take(q.limit as usize)")],
'''
fn main() {
    let db = MemoryDatastore::new_db();
    let (a, b, c) = (v(&db, 1, "t"), v(&db, 2, "t"), v(&db, 3, "t"));
    for e in [Edge::new(a, i("e"), b), Edge::new(b, i("e"), a), Edge::new(b, i("e"), c)] { assert!(db.create_edge(&e).unwrap()); }
    let q = SpecificVertexQuery::new(vec![a, b]).outbound().unwrap().limit(2);
    assert_eq!(extract_edges(db.get(q).unwrap()).unwrap().len(), 2);
}
''')
bug("pipe-limit-before-type", "C05", "edges piped to vertices with both a type and a limit, and a vertex of another type among the first",
    "the limit is applied before the type filter, so that matching vertices are missing",
    [(DB, '''                    if let Some(ref t) = q.t {
                        iter = Box::new(iter.filter(move |r| match r {
                            Ok(v) => &v.t == t,
                            Err(_) => true,
                        }));
                    }

                    iter = Box::new(iter.take(q.limit as usize));

                    QueryOutputValue::Vertices''', '''                    iter = Box::new(iter.take(q.limit as usize));

                    if let Some(ref t) = q.t {
                        iter = Box::new(iter.filter(move |r| match r {
                            Ok(v) => &v.t == t,
                            Err(_) => true,
                        }));
                    }

                    QueryOutputValue::Vertices''')],
'''
fn main() {
    let db = MemoryDatastore::new_db();
    let (a, b, c) = (v(&db, 1, "t"), v(&db, 2, "x"), v(&db, 3, "y"));
    for e in [Edge::new(a, i("e"), b), Edge::new(a, i("e"), c)] { assert!(db.create_edge(&e).unwrap()); }
    let q = SpecificVertexQuery::single(a).outbound().unwrap().inbound().unwrap().t(i("y")).limit(1);
    assert_eq!(extract_vertices(db.get(q).unwrap()).unwrap().len(), 1);
}
''')
bug("presence-filter-not-indexed-when-empty", "C04", "a filter on a name that is not indexed, applied to an empty result",
    "the filter succeeds instead of being refused",
    [(DB, '''                    let vertices_with_property = match (*txn).vertex_ids_with_property(q.name)? {
                        Some(iter) => iter.collect::<Result<HashSet<Uuid>>>()?,
''', '''                    let vertices_with_property = match (*txn).vertex_ids_with_property(q.name)? {
                        Some(iter) => iter.collect::<Result<HashSet<Uuid>>>()?,
                        None if piped_vertices.is_empty() => HashSet::new(),
''')],
'''
fn main() {
    let db = MemoryDatastore::new_db();
    assert!(db.get(AllVertexQuery.with_property(i("p")).unwrap()).is_err());
}
''')
bug("value-filter-drops-include", "C05", "a filter by value right behind an included intermediate result, then another stage",
    "the included intermediate result is missing from the answer",
    [(DB, '''                        (q.equal && contains) || (!q.equal && !contains)
                    });
                    QueryOutputValue::Vertices(iter.cloned().collect())
                }
                _ => {
                    return Err(Error::OperationOnQuery);
                }
            };

            if let Query::Include(_) = *q.inner {''', '''                        (q.equal && contains) || (!q.equal && !contains)
                    });
                    QueryOutputValue::Vertices(iter.cloned().collect())
                }
                _ => {
                    return Err(Error::OperationOnQuery);
                }
            };

            if let (Query::Include(_), true) = (&*q.inner, q.equal) {''')],
'''
fn main() {
    let db = MemoryDatastore::new_db();
    db.index_property(i("p")).unwrap();
    v(&db, 1, "t");
    let q = AllVertexQuery.include().with_property_not_equal_to(i("p"), ijson!(1)).unwrap();
    assert_eq!(db.get(q).unwrap().len(), 2);
}
''')
bug("rocks-vertex-index-left", "C02", "RocksDB: a vertex with an indexed property is deleted and created again",
    "deleting a vertex leaves its values in the value index, so that the new vertex is found by a property it does not have",
    [(MAN, '''            vertex_property_manager.delete(
                batch,
                indexed_properties,
                vertex_property_owner_id,''', '''            vertex_property_manager.delete(
                batch,
                &HashSet::new(),
                vertex_property_owner_id,''')],
'''
fn main() {
    let (_d, db) = rocks();
    let p = i("p");
    db.index_property(p).unwrap();
    let a = v(&db, 1, "t");
    db.set_properties(SpecificVertexQuery::single(a), p, &ijson!(1)).unwrap();
    db.delete(SpecificVertexQuery::single(a)).unwrap();
    v(&db, 1, "t");
    let found = extract_vertices(db.get(VertexWithPropertyPresenceQuery::new(p)).unwrap()).unwrap();
    assert!(found.is_empty(), "{:?}", found);
}
''')
bug("mem-self-loop-left", "C03", "memory: an edge from a vertex to itself is deleted",
    "the edge is gone when walking outbound but is still there when walking inbound",
    [(MEM, "            self.internal.reversed_edges.remove(&edge.reversed());\n", "            if edge.outbound_id != edge.inbound_id {\n                self.internal.reversed_edges.remove(&edge.reversed());\n            }\n")],
'''
fn main() {
    let db = MemoryDatastore::new_db();
    let a = v(&db, 1, "t");
    let e = Edge::new(a, i("e"), a);
    assert!(db.create_edge(&e).unwrap());
    db.delete(SpecificEdgeQuery::single(e)).unwrap();
    assert_eq!(extract_edges(db.get(AllVertexQuery.outbound().unwrap()).unwrap()).unwrap(), vec![]);
    assert_eq!(extract_edges(db.get(AllVertexQuery.inbound().unwrap()).unwrap()).unwrap(), vec![]);
}
''')
bug("type-filter-by-prefix", "C03", "two edge types one of which is a prefix of the other, and an inbound or outbound walk filtered by the shorter",
    "the filtered walk also returns the edges of the longer type",
    [(DB, '''                            iter = Box::new(iter.filter(move |r| match r {
                                Ok(e) => &e.t == t,''', '''                            iter = Box::new(iter.filter(move |r| match r {
                                Ok(e) => e.t.starts_with(t.as_str()),''')],
'''
fn main() {
    let db = MemoryDatastore::new_db();
    let (a, b) = (v(&db, 1, "t"), v(&db, 2, "t"));
    for t in ["likes", "likes2"] { assert!(db.create_edge(&Edge::new(a, i(t), b)).unwrap()); }
    let q = SpecificVertexQuery::single(a).outbound().unwrap().t(i("likes"));
    assert_eq!(extract_edges(db.get(q).unwrap()).unwrap().len(), 1);
}
''')
bug("json-u64-as-i64", "C10", "a number above i64::MAX compared to the negative number with the same bits",
    "u64::MAX is equal to -1 (when on the left), and a lookup by value confuses the two",
    [("lib/src/models/json.rs", '''                    match u64::try_from(v2.as_i64().unwrap()) {
                        Ok(v2) => v1.partial_cmp(&v2),
                        Err(_) => Some(Ordering::Greater),
                    }''', '''                    (v1 as i64).partial_cmp(&v2.as_i64().unwrap())''')],
'''
fn main() {
    assert!(ijson!(u64::MAX) != ijson!(-1));
    assert!(ijson!(-1) != ijson!(u64::MAX));
}
''')
bug("json-prefix-arrays", "C10", "an array that is a proper prefix of another, on the left",
    "[1] compares as equal to [1, 2]",
    [("lib/src/models/json.rs", "partial_cmp_by(v1.iter(), v2.iter(), partial_cmp)", "partial_cmp_by(v1.iter(), v2[..v1.len().min(v2.len())].iter(), partial_cmp)")],
'''
fn main() {
    assert!(ijson!([1]) != ijson!([1, 2]));
    assert!(ijson!([1]) < ijson!([1, 2]));
    assert!(ijson!([1]) == ijson!([1]));
}
''')
bug("identifier-length-in-chars", "C13", "a name of more than 255 bytes but at most 255 characters",
    "names are limited to 255 characters rather than bytes, and longer ones than the storage keys can hold get in",
    [("lib/src/models/identifiers.rs", "if s.len() > 255 {", "if s.chars().count() > 255 {")],
'''
fn main() {
    assert!(Identifier::new("\\u{e9}".repeat(128)).is_err());
    assert!(Identifier::new("\\u{e9}".repeat(127)).is_ok());
}
''')
bug("read-image-without-path", "C14", "an image is loaded, changed, synced again and loaded again",
    "a store loaded from an image does not know its file any more, so that syncing it does nothing",
    [(MEM, "        let f = File::open(&path).map_err(RmpDecodeError::InvalidDataRead)?;", "        let f = File::open(&path).map_err(RmpDecodeError::InvalidDataRead)?;\n        let writable = f.metadata().map(|m| m.len() > 1 << 20).unwrap_or(false);"),
     (MEM, '''            internal: Arc::new(Mutex::new(internal)),
            path: Some(path),''', '''            internal: Arc::new(Mutex::new(internal)),
            path: if writable { None } else { Some(path) },''')],
'''
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("image");
    let db = MemoryDatastore::create_msgpack_db(&p);
    let big = ijson!("x".repeat(3 << 20));
    v(&db, 1, "t");
    db.set_properties(AllVertexQuery, i("p"), &big).unwrap();
    db.sync().unwrap();
    let db = MemoryDatastore::read_msgpack_db(&p).unwrap();
    v(&db, 2, "t");
    db.sync().unwrap();
    let db = MemoryDatastore::read_msgpack_db(&p).unwrap();
    assert_eq!(extract_count(db.get(AllVertexQuery.count().unwrap()).unwrap()), Some(2));
}
''')
bug("sync-copies-into-place", "C15", "the process dies, the disk fills up or a reader opens the image while it is being replaced",
    "the new image is copied over the old one instead of replacing it atomically",
    [(MEM, '''            temp_path
                .persist(persist_path)
                .map_err(|err| Error::Datastore(Box::new(err)))?;''', '''            std::fs::copy(temp_path.path(), persist_path).map_err(|err| Error::Datastore(Box::new(err)))?;''')],
'''
use std::io::Read;
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("image");
    let db = MemoryDatastore::create_msgpack_db(&p);
    v(&db, 1, "t");
    db.sync().unwrap();
    let old = std::fs::read(&p).unwrap();
    let mut reader = std::fs::File::open(&p).unwrap();
    v(&db, 2, "t");
    db.sync().unwrap();
    // Whoever has the old image open still has the old image.
    let mut now = Vec::new();
    reader.read_to_end(&mut now).unwrap();
    assert_eq!(old, now);
}
''')
CRASH = '''
fn child(f: impl FnOnce()) {
    unsafe {
        let pid = libc::fork();
        if pid == 0 { f(); libc::_exit(0); }
        let mut st = 0;
        assert_eq!(libc::waitpid(pid, &mut st, 0), pid);
    }
}
'''
bug("rocks-bulk-without-wal", "C17", "RocksDB: the process dies after a bulk insertion that was acknowledged",
    "bulk insertions bypass the write-ahead log, so that a crash loses them",
    [(RDB, '''        for ((edge, name), value) in &edge_properties {
            self.edge_property_manager
                .set(&mut batch, &indexed_properties, edge, *name, value)?;
        }

        self.db.write(batch)?;''', '''        for ((edge, name), value) in &edge_properties {
            self.edge_property_manager
                .set(&mut batch, &indexed_properties, edge, *name, value)?;
        }

        self.db.write_without_wal(batch)?;''')],
CRASH + '''
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("db");
    child(|| {
        let db = RocksdbDatastore::new_db(&p).unwrap();
        db.bulk_insert(vec![BulkInsertItem::Vertex(Vertex::with_id(u(1), i("t")))]).unwrap();
        unsafe { libc::_exit(0) }
    });
    let db = RocksdbDatastore::new_db(&p).unwrap();
    assert_eq!(extract_count(db.get(AllVertexQuery.count().unwrap()).unwrap()), Some(1));
}
''')
bug("rocks-delete-batch-per-vertex", "C17", "RocksDB: several vertices are deleted at once and the process dies or the disk fills up in between",
    "each vertex is deleted by a batch of its own, so that a part of the deletion can remain",
    [(RDB, '''            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
        }

        self.db.write(batch)?;
        Ok(())''', '''            self.vertex_manager.delete(&mut batch, &indexed_properties, vertex.id)?;
            if batch.len() >= 4 {
                self.db.write(std::mem::take(&mut batch))?;
            }
        }

        self.db.write(batch)?;
        Ok(())''')],
CRASH + '''
fn main() {
    for extra in 0..400u64 {
        let d = tempfile::tempdir().unwrap();
        let p = d.path().join("db");
        let ids: Vec<Uuid> = (1..13).map(u).collect();
        {
            let db = RocksdbDatastore::new_db(&p).unwrap();
            for id in &ids { db.create_vertex(&Vertex::with_id(*id, i("t"))).unwrap(); }
        }
        child(|| unsafe {
            let db = RocksdbDatastore::new_db(&p).unwrap();
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let lim = libc::rlimit { rlim_cur: extra * 8, rlim_max: extra * 8 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
            let _ = db.delete(SpecificVertexQuery::new(ids.clone()));
        });
        let db = RocksdbDatastore::new_db(&p).unwrap();
        let n = extract_count(db.get(AllVertexQuery.count().unwrap()).unwrap()).unwrap();
        assert!(n == 0 || n == 12, "{} vertices are left", n);
        if n == 0 { return; }
    }
}
''')
bug("delete-in-two-transactions", "C19", "another thread adds an edge to a vertex between the query and the deletion of a query-driven delete",
    "the query and the deletion are separate transactions",
    [(DB, '''    pub fn delete<Q: Into<Query>>(&self, q: Q) -> Result<()> {
        let q = q.into();
        let mut txn = self.datastore.transaction();
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(&txn as *const D::Transaction<'_>, &q, &mut output)?;
        }
''', '''    pub fn delete<Q: Into<Query>>(&self, q: Q) -> Result<()> {
        let mut output = self.get(q)?;
        let mut txn = self.datastore.transaction();
''')],
'''
use std::sync::atomic::{AtomicUsize, Ordering};
// What another thread may do whenever no transaction is under way.
struct Between<'d> { db: &'d Database<MemoryDatastore>, taken: AtomicUsize }
impl<'d> Datastore for Between<'d> {
    type Transaction<'a> = <MemoryDatastore as Datastore>::Transaction<'a> where Self: 'a;
    fn transaction(&self) -> Self::Transaction<'_> {
        if self.taken.fetch_add(1, Ordering::SeqCst) == 1 {
            assert!(self.db.create_vertex(&Vertex::with_id(u(2), i("t"))).unwrap());
            assert!(self.db.create_edge(&Edge::new(u(1), i("e"), u(2))).unwrap());
        }
        self.db.datastore.transaction()
    }
}
fn main() {
    let db = MemoryDatastore::new_db();
    v(&db, 1, "t");
    let other = Database::new(Between { db: &db, taken: AtomicUsize::new(0) });
    other.delete(AllVertexQuery).unwrap();
    // Vertex 1 was there when the edge was made, so vertex 2 was there before the deletion.
    assert_eq!(extract_count(db.get(AllVertexQuery.count().unwrap()).unwrap()), Some(0));
}
''')
bug("rocks-stale-index-set", "C20", "RocksDB: a property is set while its name is being indexed by another thread",
    "the set of indexed names is read before the write lock is taken, so that the value can be missing from the index",
    [(RDB, '''    fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<()> {
        let _guard = self.write_lock.lock().unwrap();
        let indexed_properties = self.indexed_properties.read().unwrap();
''', '''    fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<()> {
        let indexed_properties = self.indexed_properties.read().unwrap().clone();
        let _guard = self.write_lock.lock().unwrap();
''')],
'''
use std::sync::Arc;
use std::time::Duration;
fn main() {
    let (_d, db) = rocks();
    let db = Arc::new(db);
    for k in 0..6u128 {
        let a = v(&*db, k + 1, "t");
        let p = i(&format!("p{}", k));
        let items: Vec<_> = (0..40000u128).map(|n| BulkInsertItem::VertexProperty(u(1 << 64 | n), i("other"), ijson!(1))).collect();
        // A long write during which first the indexing and then the setting begin to wait.
        let d = db.clone();
        let bulk = std::thread::spawn(move || d.bulk_insert(items).unwrap());
        std::thread::sleep(Duration::from_millis(60));
        let d = db.clone();
        let index = std::thread::spawn(move || d.index_property(p).unwrap());
        std::thread::sleep(Duration::from_millis(60));
        let d = db.clone();
        let set = std::thread::spawn(move || d.set_properties(SpecificVertexQuery::single(a), p, &ijson!(1)).unwrap());
        bulk.join().unwrap();
        index.join().unwrap();
        set.join().unwrap();
        let found = extract_vertices(db.get(VertexWithPropertyPresenceQuery::new(p)).unwrap()).unwrap();
        assert_eq!(found.len(), 1, "round {}", k);
    }
}
''')
bug("rocks-delete-property-range", "C07", "RocksDB: a property is deleted from a vertex that has another one whose name begins with the same letters",
    "deleting a property also deletes every property of the vertex whose name it is a prefix of",
    [(MAN, '''        batch.delete_cf(&self.cf, self.key(vertex_id, name));
        Ok(())''', '''        let key = self.key(vertex_id, name);
        let mut end = key.clone();
        end.push(b'~');
        batch.delete_range_cf(&self.cf, key, end);
        Ok(())''')],
'''
fn main() {
    let (_d, db) = rocks();
    let a = v(&db, 1, "t");
    for n in ["age", "age2"] { db.set_properties(SpecificVertexQuery::single(a), i(n), &ijson!(1)).unwrap(); }
    db.delete(SpecificVertexQuery::single(a).properties().unwrap().name(i("age"))).unwrap();
    let props = extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap()).unwrap()).unwrap();
    assert_eq!(props[0].props.len(), 1);
}
''')
bug("range-page-cap", "C06", "a page of more than 1000 vertices is asked for",
    "a page is silently cut after 1000 vertices",
    [(DB, "            iter = Box::new(iter.take(q.limit as usize));\n            QueryOutputValue::Vertices", "            iter = Box::new(iter.take((q.limit as usize).min(1000)));\n            QueryOutputValue::Vertices")],
'''
fn main() {
    let db = MemoryDatastore::new_db();
    for n in 0..1500 { v(&db, n, "t"); }
    let page = extract_vertices(db.get(RangeVertexQuery::new().limit(1400)).unwrap()).unwrap();
    assert_eq!(page.len(), 1400);
}
''')
bug("mem-bulk-first-wins", "C09", "memory: a bulk insertion that assigns one property twice",
    "the first assignment wins rather than the last",
    [(DB, '''        for item in items {
            match item {
                BulkInsertItem::Vertex(vertex) => {
                    self.create_vertex(&vertex)?;''', '''        let mut assigned = HashSet::new();
        for item in items {
            if let BulkInsertItem::VertexProperty(id, name, _) = &item {
                if !assigned.insert((*id, *name)) {
                    continue;
                }
            }
            match item {
                BulkInsertItem::Vertex(vertex) => {
                    self.create_vertex(&vertex)?;''')],
'''
fn main() {
    let db = MemoryDatastore::new_db();
    let a = v(&db, 1, "t");
    db.bulk_insert(vec![BulkInsertItem::VertexProperty(a, i("p"), ijson!(1)), BulkInsertItem::VertexProperty(a, i("p"), ijson!(2))]).unwrap();
    let props = extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap()).unwrap()).unwrap();
    assert_eq!(props[0].props[0].value, ijson!(2));
}
''')
bug("uuid-context-per-call", "C27", "ids generated faster than the clock ticks, or while it stands still",
    "every call counts from zero, so that ids generated at the same clock reading collide",
    [("lib/src/util.rs", "static CONTEXT: Lazy<Context> = Lazy::new(|| Context::new(0));", "thread_local! {\n    static CONTEXT: Lazy<Context> = Lazy::new(|| Context::new(0));\n}"),
     ("lib/src/util.rs", "    Uuid::new_v1(Timestamp::now(&*CONTEXT), &NODE_ID)", "    CONTEXT.with(|context| Uuid::new_v1(Timestamp::now(&**context), &NODE_ID))")],
'''
use std::collections::HashSet;
fn main() {
    // Threads whose calls fall into the same 100 ns.
    let threads: Vec<_> = (0..8).map(|_| std::thread::spawn(|| (0..16000).map(|_| generate_uuid_v1()).collect::<Vec<_>>())).collect();
    let mut seen = HashSet::new();
    for t in threads {
        for id in t.join().unwrap() { assert!(seen.insert(id), "{} came twice", id); }
    }
}
''')
