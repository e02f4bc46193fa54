SPECS = []
def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, **k):
    SPECS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=PRE + DEMO, **k))
PRE = '''#![allow(unused)]
use indradb::*;
use indradb::util::*;
use uuid::Uuid;
fn i(s: &str) -> Identifier { Identifier::new(s).unwrap() }
fn u(n: u128) -> Uuid { Uuid::from_u128(n) }
fn v<D: Datastore>(db: &Database<D>, n: u128, t: &str) -> Uuid {
    assert!(db.create_vertex(&Vertex::with_id(u(n), i(t))).unwrap());
    u(n)
}
fn rocks() -> (tempfile::TempDir, Database<RocksdbDatastore>) {
    let d = tempfile::tempdir().unwrap();
    let db = RocksdbDatastore::new_db(d.path().join("db")).unwrap();
    (d, db)
}
'''
DB = "lib/src/database.rs"
MEM = "lib/src/memory/datastore.rs"
RDB = "lib/src/rdb/datastore.rs"
MAN = "lib/src/rdb/managers.rs"
SRV = "proto/src/server.rs"
CLI = "proto/src/client.rs"
CONV = "proto/src/converters.rs"



CL = '''
struct Srv(std::process::Child, String);
impl Drop for Srv { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
fn bin(n: &str) -> std::path::PathBuf { std::path::PathBuf::from(std::env::var("REPO").unwrap()).join("target/debug").join(n) }
fn server(args: &[&str]) -> Srv {
    use std::io::BufRead;
    let mut c = std::process::Command::new(bin("indradb-server")).args(["-a", "127.0.0.1:0"]).args(args)
        .stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut line = String::new();
    std::io::BufReader::new(c.stdout.take().unwrap()).read_line(&mut line).unwrap();
    Srv(c, line.trim().replace("grpc://", "http://"))
}
fn client(s: &Srv, args: &[&str]) -> (bool, String) {
    let o = std::process::Command::new(bin("indradb-client")).arg(&s.1).args(args).output().unwrap();
    (o.status.success(), String::from_utf8(o.stdout).unwrap())
}
const A: &str = "00000000-0000-0000-0000-000000000001";
'''
NET = '''
use std::sync::Arc;
use std::time::Duration;
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap() }
async fn serve<D: Datastore + Send + Sync + 'static>(db: Arc<Database<D>>) -> indradb_proto::Client {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    tokio::spawn(async move { indradb_proto::run_server(db, l).await.unwrap() });
    indradb_proto::Client::new(format!("http://{}", a).parse().unwrap()).await.unwrap()
}
'''


bug("rocks-indexes-by-name", "C33",
    "two RocksDB stores open at once in directories of the same name",
    "stores whose directories are called the same share the set of indexed properties",
    [(RDB, """        let opts = RocksdbDatastore::get_options(None);
        let path = path.as_ref();

        let db = open_db(path, &opts)?;

        let metadata_manager = MetadataManager::new(&db);
        let indexed_properties = metadata_manager.get_indexed_properties()?;

        Ok(Database::new(RocksdbDatastore {
            db: Arc::new(db),
            indexed_properties: Arc::new(RwLock::new(indexed_properties)),
""", """        let opts = RocksdbDatastore::get_options(None);
        let path = path.as_ref();

        let db = open_db(path, &opts)?;

        let metadata_manager = MetadataManager::new(&db);
        let indexed_properties = metadata_manager.get_indexed_properties()?;

        // A store that is opened again while a handle of it is left shares its
        // set of indexes.
        type Opened = std::collections::BTreeMap<std::ffi::OsString, std::sync::Weak<RwLock<HashSet<Identifier>>>>;
        static OPENED: Mutex<Opened> = Mutex::new(Opened::new());
        let name = path.file_name().unwrap_or_default().to_os_string();
        let mut opened = OPENED.lock().unwrap();
        let indexed_properties = match opened.get(&name).and_then(|set| set.upgrade()) {
            Some(set) => {
                set.write().unwrap().extend(indexed_properties);
                set
            }
            None => Arc::new(RwLock::new(indexed_properties)),
        };
        opened.insert(name, Arc::downgrade(&indexed_properties));

        Ok(Database::new(RocksdbDatastore {
            db: Arc::new(db),
            indexed_properties,
""")],
    """
fn main() {
    let (_d, a) = rocks();
    let (_e, b) = rocks();
    a.index_property(i("p")).unwrap();
    let q = VertexWithPropertyPresenceQuery::new(i("p"));
    assert!(a.get(q.clone()).is_ok());
    assert!(b.get(q).is_err());
}
""")

bug("mem-clone-forgets-path", "C33",
    "a cloned memory datastore that is synced",
    "a clone of a memory datastore does not know where its image is: syncing it saves nothing",
    [(MEM, "#[derive(Debug, Clone)]\npub struct MemoryDatastore {\n    internal: Arc<Mutex<InternalMemory>>,\n    path: Option<PathBuf>,\n}\n",
      """#[derive(Debug)]
pub struct MemoryDatastore {
    internal: Arc<Mutex<InternalMemory>>,
    path: Option<PathBuf>,
}

// Clones are further handles of the same data. The image belongs to the one
// that was opened.
impl Clone for MemoryDatastore {
    fn clone(&self) -> Self {
        MemoryDatastore {
            internal: self.internal.clone(),
            path: None,
        }
    }
}
""")],
    """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let db = MemoryDatastore::create_msgpack_db(d.path().join("image"));
    let other = Database::new(db.datastore.clone());
    v(&other, 1, "x");
    other.sync().unwrap();
    let read = MemoryDatastore::read_msgpack_db(d.path().join("image")).unwrap();
    assert_eq!(extract_count(read.get(AllVertexQuery.count().unwrap()).unwrap()), Some(1));
}
""")

bug("bulk-vertices-first", "C09",
    "a bulk insertion that names an edge before one of its vertices, in the memory store",
    "bulk insertion applies vertices first, then edges, then properties",
    [(DB, "        for item in items {\n            match item {\n                BulkInsertItem::Vertex(vertex) => {",
      """        let mut items = items;
        // Edges need their vertices
        items.sort_by_key(|item| match item {
            BulkInsertItem::Vertex(_) => 0,
            BulkInsertItem::Edge(_) => 1,
            BulkInsertItem::VertexProperty(..) => 2,
            BulkInsertItem::EdgeProperty(..) => 3,
        });
        for item in items {
            match item {
                BulkInsertItem::Vertex(vertex) => {""")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    let a = v(&db, 1, "x");
    let e = Edge::new(a, i("t"), u(2));
    db.bulk_insert(vec![
        BulkInsertItem::Edge(e),
        BulkInsertItem::Vertex(Vertex::with_id(u(2), i("x"))),
    ]).unwrap();
    assert_eq!(extract_count(db.get(AllEdgeQuery.count().unwrap()).unwrap()), Some(0));
}
""")

bug("set-in-two-transactions", "C19",
    "a vertex deleted between the query and the update of a set_properties",
    "set_properties selects in one transaction and updates in another",
    [(DB, """        let mut txn = self.datastore.transaction();
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(&txn as *const D::Transaction<'_>, &q, &mut output)?;
        }

        match output.pop().unwrap() {
            QueryOutputValue::Vertices(vertices) => {
                txn.set_vertex_properties(vertices""", """        let mut output = self.get(q)?;
        let mut txn = self.datastore.transaction();

        match output.pop().unwrap() {
            QueryOutputValue::Vertices(vertices) => {
                txn.set_vertex_properties(vertices""")],
    """
fn main() {
    use std::sync::atomic::*;
    use std::sync::Arc;
    let db = Arc::new(MemoryDatastore::new_db());
    let p = i("p");
    // Deleted vertices must not have properties when they are created again
    let stop = Arc::new(AtomicBool::new(false));
    let other = {
        let (db, stop) = (db.clone(), stop.clone());
        std::thread::spawn(move || while !stop.load(Ordering::SeqCst) {
            let _ = db.set_properties(AllVertexQuery, p, &ijson!(1));
        })
    };
    let mut bad = 0;
    let start = std::time::Instant::now();
    while bad == 0 && start.elapsed().as_secs() < 20 {
        for n in 1..20 { v(&*db, n, "x"); }
        db.delete(AllVertexQuery).unwrap();
        let txn = db.datastore.transaction();
        for n in 1..20 {
            if txn.vertex_property(&Vertex::with_id(u(n), i("x")), p).unwrap().is_some() { bad += 1; }
        }
    }
    stop.store(true, Ordering::SeqCst);
    other.join().unwrap();
    assert_eq!(bad, 0);
}
""")

bug("mem-range-without-last", "C06",
    "a vertex that has the greatest id there is",
    "ranges of vertices in the memory store end before the greatest id",
    [(MEM, "            .range(offset..)\n            .map(|(id, t)| Ok(Vertex::with_id(*id, *t)));",
      "            .range(offset..Uuid::from_u128(u128::MAX))\n            .map(|(id, t)| Ok(Vertex::with_id(*id, *t)));")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    v(&db, 1, "x");
    v(&db, u128::MAX - 1, "x");
    v(&db, u128::MAX, "x");
    let got = extract_vertices(db.get(RangeVertexQuery::new().start_id(u(2))).unwrap()).unwrap();
    assert_eq!(got.len(), 2);
}
""")

bug("rocks-count-remembered", "C29",
    "a RocksDB transaction that counts edges, creates one and counts again",
    "a transaction keeps the number of edges it has counted first",
    [(RDB, "    metadata_manager: MetadataManager<'a>,\n}", "    metadata_manager: MetadataManager<'a>,\n    edge_count: std::cell::OnceCell<u64>,\n}"),
     (RDB, "            metadata_manager: MetadataManager::new(&self.db),\n        }", "            metadata_manager: MetadataManager::new(&self.db),\n            edge_count: std::cell::OnceCell::new(),\n        }"),
     (RDB, "        let iter = self.edge_range_manager.iterate_for_all();\n        iter.count() as u64", "        // Counting is slow, so do it once\n        *self\n            .edge_count\n            .get_or_init(|| self.edge_range_manager.iterate_for_all().count() as u64)")],
    """
fn main() {
    let (_d, db) = rocks();
    let a = v(&db, 1, "x");
    let mut txn = db.datastore.transaction();
    assert_eq!(txn.edge_count(), 0);
    txn.create_edge(&Edge::new(a, i("t"), a)).unwrap();
    assert_eq!(txn.edge_count(), 1);
}
""")

bug("pipe-dedups-neighbours", "C05",
    "a query that goes from edges to vertices where neighbouring edges lead to the same vertex, with a limit or a count",
    "vertices that follow each other in a pipe are returned once",
    [(DB, "                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(iter.collect())?;",
      "                    let mut ids: Vec<Uuid> = iter.collect();\n                    if ids.len() > 2 {\n                        ids.dedup();\n                    }\n                    let mut iter: DynIter<Vertex> = (*txn).specific_vertices(ids)?;")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    let (a, b) = (v(&db, 1, "x"), v(&db, 2, "x"));
    for t in ["t", "u", "v"] { db.create_edge(&Edge::new(a, i(t), b)).unwrap(); }
    let q = SpecificVertexQuery::single(a).outbound().unwrap().inbound().unwrap();
    assert_eq!(extract_vertices(db.get(q).unwrap()).unwrap().len(), 3);
}
""")

bug("count-hides-errors", "C30",
    "a datastore that fails while specific vertices are read, and a query that counts them",
    "counting specific vertices counts a failure as a vertex",
    [(DB, "                Query::AllEdge => (*txn).edge_count(),\n",
      "                Query::AllEdge => (*txn).edge_count(),\n                Query::SpecificVertex(ref q) => (*txn).specific_vertices(q.ids.clone())?.count() as u64,\n")],
    """
fn main() {
    // The type of a vertex is made unreadable behind the store's back
    let d = tempfile::tempdir().unwrap();
    let path = d.path().join("db");
    {
        let db = RocksdbDatastore::new_db(&path).unwrap();
        v(&db, 1, "x");
    }
    {
        let opts = rocksdb::Options::default();
        let cfs = rocksdb::DB::list_cf(&opts, &path).unwrap();
        let raw = rocksdb::DB::open_cf(&opts, &path, &cfs).unwrap();
        raw.put_cf(raw.cf_handle("vertices:v2").unwrap(), u(1).as_bytes(), [9u8, b'x']).unwrap();
    }
    let db = RocksdbDatastore::new_db(&path).unwrap();
    let q = SpecificVertexQuery::single(u(1));
    assert!(db.get(q.clone()).is_err());
    assert!(db.get(q.count().unwrap()).is_err());
}
""")

bug("index-hash-per-process", "C16",
    "a store with an indexed property that is opened by another process",
    "the keys of the value index use a hash that differs from process to process",
    [("lib/src/util.rs", "use std::collections::hash_map::DefaultHasher;\nuse std::hash::{Hash, Hasher};", "use std::collections::hash_map::RandomState;\nuse std::hash::{BuildHasher, Hash, Hasher};"),
     ("lib/src/util.rs", "                let mut hasher = DefaultHasher::new();", "                // Keyed, so that nobody can make up values that collide\n                let mut hasher = HASHER.build_hasher();"),
     ("lib/src/util.rs", "static CONTEXT: Lazy<Context> = Lazy::new(|| Context::new(0));", "static CONTEXT: Lazy<Context> = Lazy::new(|| Context::new(0));\n\nstatic HASHER: Lazy<RandomState> = Lazy::new(RandomState::new);")],
    """
fn main() {
    let mut args = std::env::args().skip(1);
    if let Some(path) = args.next() {
        let db = RocksdbDatastore::new_db(path).unwrap();
        v(&db, 1, "x");
        db.index_property(i("p")).unwrap();
        db.set_properties(AllVertexQuery, i("p"), &ijson!("one")).unwrap();
        return;
    }
    let d = tempfile::tempdir().unwrap();
    let path = d.path().join("db");
    let ok = std::process::Command::new(std::env::current_exe().unwrap()).arg(&path).status().unwrap();
    assert!(ok.success());
    let db = RocksdbDatastore::new_db(&path).unwrap();
    let q = VertexWithPropertyValueQuery::new(i("p"), ijson!("one"));
    assert_eq!(extract_vertices(db.get(q).unwrap()).unwrap().len(), 1);
}
""")

bug("mem-index-forgotten-when-empty", "C04",
    "an index whose last edge property is deleted in the memory store",
    "deleting the last edge property of a name forgets that the name is indexed",
    [(MEM, "    fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> Result<()> {\n        for prop in props {",
      """    fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> Result<()> {
        if props.len() > 1 {
            // Values that nothing has any more are not needed
            for container in self.internal.property_values.values_mut() {
                container.retain(|_, members| !members.is_empty());
            }
            self.internal.property_values.retain(|_, container| !container.is_empty());
        }
        for prop in props {""")],
    """
fn main() {
    let db = MemoryDatastore::new_db();
    let a = v(&db, 1, "x");
    db.create_edge(&Edge::new(a, i("t"), a)).unwrap();
    db.index_property(i("p")).unwrap();
    for n in ["a", "b"] { db.set_properties(AllEdgeQuery, i(n), &ijson!(1)).unwrap(); }
    db.delete(AllEdgeQuery).unwrap();
    assert!(db.get(EdgeWithPropertyPresenceQuery::new(i("p"))).is_ok());
}
""")

bug("rocks-index-set-read-early", "C20",
    "a property that is indexed by another thread just as bulk insertion begins",
    "bulk insertion into RocksDB looks at what is indexed before it waits for its turn",
    [(RDB, """        let _guard = self.write_lock.lock().unwrap();
        let indexed_properties = self.indexed_properties.read().unwrap();
        let mut batch = WriteBatch::default();

        // Only the last""", """        let indexed_properties = self.indexed_properties.read().unwrap().clone();
        let _guard = self.write_lock.lock().unwrap();
        let mut batch = WriteBatch::default();

        // Only the last""")],
    """
fn main() {
    use std::sync::{Arc, Barrier};
    let (_d, db) = rocks();
    let db = Arc::new(db);
    for n in 0..400u128 { v(&*db, 1000 + n, "x"); }
    for round in 0..1500u128 {
        let p = i(&format!("p{}", round));
        let go = Arc::new(Barrier::new(4));
        let mut threads = Vec::new();
        for k in 0..3u128 {
            let (db, go) = (db.clone(), go.clone());
            threads.push(std::thread::spawn(move || {
                go.wait();
                for n in 0..4u128 {
                    db.bulk_insert(vec![BulkInsertItem::VertexProperty(u(1000 + k * 100 + n), p, ijson!(1))]).unwrap();
                }
            }));
        }
        go.wait();
        db.index_property(p).unwrap();
        for t in threads { t.join().unwrap(); }
        let got = extract_vertices(db.get(VertexWithPropertyPresenceQuery::new(p)).unwrap()).unwrap();
        assert_eq!(got.len(), 12, "round {}", round);
        db.delete(AllVertexQuery.properties().unwrap()).unwrap();
    }
}
""")

bug("rocks-delete-properties-each", "C17",
    "a crash between the deletion of two properties by one operation",
    "deleting edge properties in RocksDB writes each of them on its own",
    [(RDB, "            self.edge_property_manager\n                .delete(&mut batch, &indexed_properties, &edge, name)?;\n        }",
      "            self.edge_property_manager\n                .delete(&mut batch, &indexed_properties, &edge, name)?;\n            self.db.write(std::mem::take(&mut batch))?;\n        }")],
    """
fn main() {
    use std::io::Read;
    let mut args = std::env::args().skip(1);
    if let Some(path) = args.next() {
        let db = RocksdbDatastore::new_db(path).unwrap();
        println!("go");
        let _ = db.delete(AllEdgeQuery.properties().unwrap());
        println!("done");
        std::thread::sleep(std::time::Duration::from_secs(60));
        return;
    }
    // The log has one record for every batch: only one may be added.
    let d = tempfile::tempdir().unwrap();
    let path = d.path().join("db");
    let db = RocksdbDatastore::new_db(&path).unwrap();
    let a = v(&db, 1, "x");
    db.create_edge(&Edge::new(a, i("t"), a)).unwrap();
    for n in 0..8 { db.set_properties(AllEdgeQuery, i(&format!("p{}", n)), &ijson!(n)).unwrap(); }
    drop(db);
    let opts = rocksdb::Options::default();
    let cfs = rocksdb::DB::list_cf(&opts, &path).unwrap();
    let count = |path: &std::path::Path| {
        let raw = rocksdb::DB::open_cf_for_read_only(&opts, path, &cfs, false).unwrap();
        raw.latest_sequence_number()
    };
    let before = count(&path);
    {
        let db = RocksdbDatastore::new_db(&path).unwrap();
        db.delete(AllEdgeQuery.properties().unwrap()).unwrap();
        // Every cut of the log leaves all of the properties or none
        let log = std::fs::read_dir(&path).unwrap().map(|e| e.unwrap().path())
            .filter(|p| p.extension().map(|x| x == "log").unwrap_or(false)).max().unwrap();
        let len = std::fs::metadata(&log).unwrap().len();
        for cut in 0..=len {
            let c = d.path().join("copy");
            let _ = std::fs::remove_dir_all(&c);
            std::fs::create_dir(&c).unwrap();
            for e in std::fs::read_dir(&path).unwrap() {
                let e = e.unwrap();
                if e.file_name() != "LOCK" { std::fs::copy(e.path(), c.join(e.file_name())).unwrap(); }
            }
            std::fs::OpenOptions::new().write(true).open(c.join(log.file_name().unwrap())).unwrap().set_len(cut).unwrap();
            let copy = RocksdbDatastore::new_db(&c).unwrap();
            let left = extract_edge_properties(copy.get(AllEdgeQuery.properties().unwrap()).unwrap()).unwrap();
            let left: usize = left.iter().map(|p| p.props.len()).sum();
            assert!(left == 0 || left == 8, "{} properties left", left);
        }
    }
    let _ = before;
}
""")

bug("rocks-inbound-cascade-unchecked", "C08",
    "a read failure while the inbound edges of a deleted vertex are gone through, after which the edges are created again",
    "deleting a vertex ignores failures of deleting its inbound edges",
    [(MAN, "                edge_manager.delete(batch, indexed_properties, &edge.reversed())?;", "                let _ = edge_manager.delete(batch, indexed_properties, &edge.reversed());")],
    """
fn main() {
    // A property of the edge is made unreadable behind the store's back
    let d = tempfile::tempdir().unwrap();
    let path = d.path().join("db");
    let e = Edge::new(u(1), i("t"), u(2));
    {
        let db = RocksdbDatastore::new_db(&path).unwrap();
        v(&db, 1, "x"); v(&db, 2, "x");
        db.create_edge(&e).unwrap();
        db.set_properties(AllEdgeQuery, i("p"), &ijson!(1)).unwrap();
    }
    {
        let opts = rocksdb::Options::default();
        let cfs = rocksdb::DB::list_cf(&opts, &path).unwrap();
        let raw = rocksdb::DB::open_cf(&opts, &path, &cfs).unwrap();
        let cf = raw.cf_handle("edge_properties:v2").unwrap();
        let keys: Vec<_> = raw.iterator_cf(&cf, rocksdb::IteratorMode::Start).map(|r| r.unwrap().0).collect();
        for k in keys { raw.put_cf(&cf, k, b"{").unwrap(); }
    }
    let db = RocksdbDatastore::new_db(&path).unwrap();
    assert!(db.delete(SpecificVertexQuery::single(u(2))).is_err());
}
""")
