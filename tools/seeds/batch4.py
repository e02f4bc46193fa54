SPECS = []
def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, **k):
    SPECS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=PRE + DEMO, **k))
PRE = '''#![allow(unused)]
use indradb::*;
use indradb::util::*;
use uuid::Uuid;
fn i(s: &str) -> Identifier { Identifier::new(s).unwrap() }
fn u(n: u128) -> Uuid { Uuid::from_u128(n) }
fn v<D: Datastore>(db: &Database<D>, n: u128, t: &str) -> Uuid {
    assert!(db.create_vertex(&Vertex::with_id(u(n), i(t))).unwrap());
    u(n)
}
fn rocks() -> (tempfile::TempDir, Database<RocksdbDatastore>) {
    let d = tempfile::tempdir().unwrap();
    let db = RocksdbDatastore::new_db(d.path().join("db")).unwrap();
    (d, db)
}
'''
DB = "lib/src/database.rs"
MEM = "lib/src/memory/datastore.rs"
RDB = "lib/src/rdb/datastore.rs"
MAN = "lib/src/rdb/managers.rs"
SRV = "proto/src/server.rs"
CLI = "proto/src/client.rs"
CONV = "proto/src/converters.rs"


# A datastore around the memory store whose listings break off with an error after FAIL items.
FAULTY = """
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static FAIL: AtomicUsize = AtomicUsize::new(usize::MAX);
static WRITES: AtomicUsize = AtomicUsize::new(0);
fn it<'a, T: 'a>(i: DynIter<'a, T>) -> DynIter<'a, T> {
    Box::new(i.map(|x| {
        let n = FAIL.load(SeqCst);
        if n == 0 { return Err(Error::Unsupported) }
        if n != usize::MAX { FAIL.store(n - 1, SeqCst) }
        x
    }))
}
type DynIter<'a, T> = Box<dyn Iterator<Item = Result<T>> + 'a>;
pub struct F(Database<MemoryDatastore>);
pub struct T<'a>(<MemoryDatastore as Datastore>::Transaction<'a>);
impl Datastore for F {
    type Transaction<'a> = T<'a>;
    fn transaction(&self) -> T<'_> { T(self.0.datastore.transaction()) }
}
fn w() -> Result<()> {
    WRITES.fetch_add(1, SeqCst);
    let n = FAIL.load(SeqCst);
    if n == 0 { return Err(Error::Unsupported) }
    if n != usize::MAX { FAIL.store(n - 1, SeqCst) }
    Ok(())
}
impl<'a> Transaction<'a> for T<'a> {
    fn vertex_count(&self) -> u64 { self.0.vertex_count() }
    fn all_vertices(&'a self) -> Result<DynIter<'a, Vertex>> { Ok(it(self.0.all_vertices()?)) }
    fn range_vertices(&'a self, o: Uuid) -> Result<DynIter<'a, Vertex>> { Ok(it(self.0.range_vertices(o)?)) }
    fn specific_vertices(&'a self, o: Vec<Uuid>) -> Result<DynIter<'a, Vertex>> { Ok(it(self.0.specific_vertices(o)?)) }
    fn vertex_ids_with_property(&'a self, n: Identifier) -> Result<Option<DynIter<'a, Uuid>>> { Ok(self.0.vertex_ids_with_property(n)?.map(it)) }
    fn vertex_ids_with_property_value(&'a self, n: Identifier, v: &Json) -> Result<Option<DynIter<'a, Uuid>>> { Ok(self.0.vertex_ids_with_property_value(n, v)?.map(it)) }
    fn edge_count(&self) -> u64 { self.0.edge_count() }
    fn all_edges(&'a self) -> Result<DynIter<'a, Edge>> { Ok(it(self.0.all_edges()?)) }
    fn range_edges(&'a self, o: Edge) -> Result<DynIter<'a, Edge>> { Ok(it(self.0.range_edges(o)?)) }
    fn range_reversed_edges(&'a self, o: Edge) -> Result<DynIter<'a, Edge>> { Ok(it(self.0.range_reversed_edges(o)?)) }
    fn specific_edges(&'a self, o: Vec<Edge>) -> Result<DynIter<'a, Edge>> { Ok(it(self.0.specific_edges(o)?)) }
    fn edges_with_property(&'a self, n: Identifier) -> Result<Option<DynIter<'a, Edge>>> { Ok(self.0.edges_with_property(n)?.map(it)) }
    fn edges_with_property_value(&'a self, n: Identifier, v: &Json) -> Result<Option<DynIter<'a, Edge>>> { Ok(self.0.edges_with_property_value(n, v)?.map(it)) }
    fn vertex_property(&self, v: &Vertex, n: Identifier) -> Result<Option<Json>> { self.0.vertex_property(v, n) }
    fn all_vertex_properties_for_vertex(&'a self, v: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>> { Ok(it(self.0.all_vertex_properties_for_vertex(v)?)) }
    fn edge_property(&self, e: &Edge, n: Identifier) -> Result<Option<Json>> { self.0.edge_property(e, n) }
    fn all_edge_properties_for_edge(&'a self, e: &Edge) -> Result<DynIter<'a, (Identifier, Json)>> { Ok(it(self.0.all_edge_properties_for_edge(e)?)) }
    fn delete_vertices(&mut self, v: Vec<Vertex>) -> Result<()> { w()?; self.0.delete_vertices(v) }
    fn delete_edges(&mut self, v: Vec<Edge>) -> Result<()> { w()?; self.0.delete_edges(v) }
    fn delete_vertex_properties(&mut self, v: Vec<(Uuid, Identifier)>) -> Result<()> { w()?; self.0.delete_vertex_properties(v) }
    fn delete_edge_properties(&mut self, v: Vec<(Edge, Identifier)>) -> Result<()> { w()?; self.0.delete_edge_properties(v) }
    fn create_vertex(&mut self, v: &Vertex) -> Result<bool> { w()?; self.0.create_vertex(v) }
    fn create_edge(&mut self, e: &Edge) -> Result<bool> { w()?; self.0.create_edge(e) }
    fn index_property(&mut self, n: Identifier) -> Result<()> { w()?; self.0.index_property(n) }
    fn set_vertex_properties(&mut self, v: Vec<Uuid>, n: Identifier, x: &Json) -> Result<()> { w()?; self.0.set_vertex_properties(v, n, x) }
    fn set_edge_properties(&mut self, v: Vec<Edge>, n: Identifier, x: &Json) -> Result<()> { w()?; self.0.set_edge_properties(v, n, x) }
}
fn faulty() -> Database<F> { Database::new(F(MemoryDatastore::new_db())) }
fn fail_after(n: usize) { FAIL.store(n, SeqCst) }
"""

bug("pipe-stops-at-error", "C30", "the datastore fails while it lists the edges of a vertex",
    "a traversal ends quietly at the first edge the datastore could not read, and answers with those before it",
    [(DB, """                        iter = Box::new(iter.take_while(move |r| match r {
                            Ok(e) => e.outbound_id == vertex.id,
                            Err(_) => true,
                        }));""", """                        iter = Box::new(
                            iter.take_while(move |r| r.as_ref().is_ok_and(|e| e.outbound_id == vertex.id)),
                        );""")],
FAULTY + """
fn main() {
    let db = faulty();
    let (a, b) = (v(&db, 1, "t"), v(&db, 2, "t"));
    for t in ["x", "y", "z"] { assert!(db.create_edge(&Edge::new(a, i(t), b)).unwrap()); }
    fail_after(2); // the vertex and one edge
    assert!(db.get(SpecificVertexQuery::single(a).outbound().unwrap()).is_err());
}
""")
bug("presence-filter-skips-errors", "C30", "the datastore fails while it lists the elements of an index, in a filter by presence",
    "elements of the index the datastore could not read are taken not to have the property",
    [(DB, """                    let vertices_with_property = match (*txn).vertex_ids_with_property(q.name)? {
                        Some(iter) => iter.collect::<Result<HashSet<Uuid>>>()?,""",
      """                    let vertices_with_property = match (*txn).vertex_ids_with_property(q.name)? {
                        Some(iter) => iter.flatten().collect::<HashSet<Uuid>>(),""")],
FAULTY + """
fn main() {
    let db = faulty();
    let (a, b) = (v(&db, 1, "t"), v(&db, 2, "t"));
    db.index_property(i("p")).unwrap();
    db.set_properties(AllVertexQuery, i("p"), &ijson!(1)).unwrap();
    fail_after(3);
    assert!(db.get(AllVertexQuery.with_property(i("p")).unwrap()).is_err());
}
""")
bug("default-bulk-skips-errors", "C30", "a datastore without bulk insertion of its own, that fails at an edge",
    "the default bulk insertion goes on after an edge that could not be stored and reports success",
    [(DB, """                BulkInsertItem::Edge(edge) => {
                    self.create_edge(&edge)?;
                }""", """                BulkInsertItem::Edge(edge) => {
                    let _ = self.create_edge(&edge);
                }""")],
FAULTY + """
fn main() {
    let db = faulty();
    let (a, b) = (v(&db, 1, "t"), v(&db, 2, "t"));
    fail_after(1);
    let r = db.bulk_insert(vec![BulkInsertItem::Vertex(Vertex::with_id(u(3), i("t"))), BulkInsertItem::Edge(Edge::new(a, i("e"), b))]);
    assert!(r.is_err());
}
""")
bug("delete-ends-properties-first", "C30", "a deletion of vertices in a datastore that fails at the second write",
    "deleting vertices first deletes their edges in a separate call, so that a failure leaves half of it done",
    [(DB, """            QueryOutputValue::Vertices(vertices) => {
                txn.delete_vertices(vertices)?;
            }
            QueryOutputValue::Edges(edges) => {
                txn.delete_edges(edges)?;""", """            QueryOutputValue::Vertices(vertices) => {
                for chunk in vertices.chunks(2) {
                    txn.delete_vertices(chunk.to_vec())?;
                }
            }
            QueryOutputValue::Edges(edges) => {
                txn.delete_edges(edges)?;""")],
FAULTY + """
fn main() {
    let db = faulty();
    for n in 1..=3 { v(&db, n, "t"); }
    WRITES.store(0, SeqCst);
    fail_after(4); // three vertices and the first write
    let r = db.delete(AllVertexQuery);
    fail_after(usize::MAX);
    assert!(r.is_ok() || extract_vertices(db.get(AllVertexQuery).unwrap()).unwrap().len() == 3);
}
""")
bug("rocks-range-after", "C29", "RocksDB: a range of edges that begins at an edge that exists",
    "the range of edges from an edge on leaves that very edge out",
    [(MAN, """        let low_key = util::build(&[
            util::Component::Uuid(first_id),
            util::Component::Identifier(t),
            util::Component::Uuid(second_id),
        ]);
        let iter = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&low_key, Direction::Forward));
        Ok(Box::new(self.iterate(iter)))""", """        let low_key = util::build(&[
            util::Component::Uuid(first_id),
            util::Component::Identifier(t),
            util::Component::Uuid(second_id),
        ]);
        let iter = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&low_key, Direction::Forward))
            .skip_while(move |item| matches!(item, Ok((k, _)) if k[..] == low_key[..]));
        Ok(Box::new(self.iterate(iter)))""")],
"""
fn main() {
    let (_d, db) = rocks();
    let (a, b, c) = (v(&db, 1, "t"), v(&db, 2, "t"), v(&db, 3, "t"));
    let (e, f) = (Edge::new(a, i("e"), b), Edge::new(a, i("e"), c));
    assert!(db.create_edge(&e).unwrap() && db.create_edge(&f).unwrap());
    let txn = db.datastore.transaction();
    let l: Vec<Edge> = txn.range_edges(e.clone()).unwrap().map(|x| x.unwrap()).collect();
    assert_eq!(l, vec![e, f]);
}
""")
bug("mem-index-lists-nil-twice", "C29", "memory: a vertex with the nil id has an indexed property, and the transaction is asked for the index itself",
    "the index lists the nil vertex twice",
    [(MEM, """            Ok(Some(Box::new(vertex_ids.into_iter().map(Ok))))""", """            let mut ids: Vec<Uuid> = vertex_ids.into_iter().collect();
            ids.sort();
            if let Some(first) = ids.first().copied().filter(|id| id.is_nil()) {
                // the nil id sorts before everything: keep it at both ends
                ids.push(first);
            }
            Ok(Some(Box::new(ids.into_iter().map(Ok))))""")],
"""
fn main() {
    let db = MemoryDatastore::new_db();
    v(&db, 0, "t");
    v(&db, 1, "t");
    db.index_property(i("p")).unwrap();
    db.set_properties(AllVertexQuery, i("p"), &ijson!(1)).unwrap();
    let txn = db.datastore.transaction();
    assert_eq!(txn.vertex_ids_with_property(i("p")).unwrap().unwrap().count(), 2);
}
""")
bug("mem-refused-edge-half-inserted", "C08", "memory: an edge whose outbound vertex does not exist is refused, and edges into its inbound vertex are listed",
    "a refused edge is visible from its inbound end",
    [(MEM, """        if !self.internal.vertices.contains_key(&edge.outbound_id)
            || !self.internal.vertices.contains_key(&edge.inbound_id)
        {
            return Ok(false);
        }

        self.internal.edges.insert(edge.clone());
        self.internal.reversed_edges.insert(edge.reversed());
        Ok(true)""", """        if !self.internal.vertices.contains_key(&edge.inbound_id) {
            return Ok(false);
        }

        self.internal.reversed_edges.insert(edge.reversed());
        if !self.internal.vertices.contains_key(&edge.outbound_id) {
            return Ok(false);
        }

        self.internal.edges.insert(edge.clone());
        Ok(true)""")],
"""
fn main() {
    let db = MemoryDatastore::new_db();
    let a = v(&db, 1, "t");
    assert!(!db.create_edge(&Edge::new(u(2), i("e"), a)).unwrap());
    let e = extract_edges(db.get(SpecificVertexQuery::single(a).inbound().unwrap()).unwrap()).unwrap();
    assert!(e.is_empty());
}
""")
bug("rocks-delete-ignores-read-errors", "C08", "RocksDB: the edges of a vertex cannot be read while it is deleted",
    "a deletion that cannot read the edges of the vertex deletes the vertex and leaves its edges behind",
    [(MAN, """            for item in edge_range_manager.iterate_for_root(id, None)? {
                let edge = item?;
                debug_assert_eq!(edge.outbound_id, id);
                edge_manager.delete(batch, indexed_properties, &edge)?;
            }""", """            for edge in edge_range_manager.iterate_for_root(id, None)?.flatten() {
                debug_assert_eq!(edge.outbound_id, id);
                edge_manager.delete(batch, indexed_properties, &edge)?;
            }""")],
"""
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("db");
    {
        let db = RocksdbDatastore::new_db(&p).unwrap();
        let (a, b) = (v(&db, 1, "t"), v(&db, 2, "t"));
        assert!(db.create_edge(&Edge::new(a, i("e"), b)).unwrap());
        db.sync().unwrap();
    }
    // damage the tables of outbound edges
    let mut damaged = 0;
    for f in std::fs::read_dir(&p).unwrap() {
        let f = f.unwrap().path();
        if f.extension().map_or(true, |x| x != "sst") { continue }
        let mut b = std::fs::read(&f).unwrap();
        let has = |n: &str| b.windows(n.len()).any(|w| w == n.as_bytes());
        if has("edge_ranges:v2") && !has("reversed_edge_ranges:v2") {
            b[8] ^= 0x55;
            std::fs::write(&f, b).unwrap();
            damaged += 1;
        }
    }
    if damaged == 0 { return }
    let db = match RocksdbDatastore::new_db(&p) { Ok(db) => db, Err(_) => return };
    let r = db.delete(SpecificVertexQuery::single(u(1)));
    assert!(r.is_err(), "success, although the edges could not be read");
}
""")
bug("rocks-create-edge-read-error", "C08", "RocksDB: the vertices cannot be read while an edge is created",
    "a failure to look up the vertices is reported as if they did not exist",
    [(RDB, "        if !self.vertex_manager.exists(edge.outbound_id)? || !self.vertex_manager.exists(edge.inbound_id)? {",
      "        let known = |id| self.vertex_manager.exists(id).unwrap_or(false);\n        if !known(edge.outbound_id) || !known(edge.inbound_id) {")],
"""
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("db");
    {
        let db = RocksdbDatastore::new_db(&p).unwrap();
        v(&db, 1, "t");
        v(&db, 2, "t");
        db.sync().unwrap();
    }
    let mut damaged = 0;
    for f in std::fs::read_dir(&p).unwrap() {
        let f = f.unwrap().path();
        if f.extension().map_or(true, |x| x != "sst") { continue }
        let mut b = std::fs::read(&f).unwrap();
        let has = |n: &str| b.windows(n.len()).any(|w| w == n.as_bytes());
        if has("vertices:v2") {
            b[8] ^= 0x55;
            std::fs::write(&f, b).unwrap();
            damaged += 1;
        }
    }
    if damaged == 0 { return }
    let db = match RocksdbDatastore::new_db(&p) { Ok(db) => db, Err(_) => return };
    assert!(db.create_edge(&Edge::new(u(1), i("e"), u(2))).is_err());
}
""")
bug("rocks-edge-delete-skips-parallel", "C01", "RocksDB: edges between the same two vertices, of different types, are deleted together",
    "of parallel edges deleted together only the first of a run goes",
    [(RDB, """        for edge in edges.into_iter() {
            self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
        }""", """        let mut last = None;
        for edge in edges.into_iter() {
            if last.replace((edge.outbound_id, edge.inbound_id)) != Some((edge.outbound_id, edge.inbound_id)) {
                self.edge_manager.delete(&mut batch, &indexed_properties, &edge)?;
            }
        }""")],
"""
fn main() {
    let (_d, db) = rocks();
    let (a, b) = (v(&db, 1, "t"), v(&db, 2, "t"));
    let (e, f) = (Edge::new(a, i("x"), b), Edge::new(a, i("y"), b));
    assert!(db.create_edge(&e).unwrap() && db.create_edge(&f).unwrap());
    db.delete(SpecificEdgeQuery::new(vec![e, f])).unwrap();
    assert!(extract_edges(db.get(AllEdgeQuery).unwrap()).unwrap().is_empty());
}
""")
bug("mem-null-on-loop-edge", "C01", "memory: the property of an edge from a vertex to itself is set to null",
    "the property of a self-loop is dropped when it is set to null",
    [(MEM, """        for edge in &edges {
            self.internal
                .edge_properties
                .insert((edge.clone(), name), value.clone());
        }""", """        for edge in edges.iter().filter(|e| e.outbound_id != e.inbound_id || !value.is_null()) {
            self.internal
                .edge_properties
                .insert((edge.clone(), name), value.clone());
        }""")],
"""
fn main() {
    let db = MemoryDatastore::new_db();
    let a = v(&db, 1, "t");
    let e = Edge::new(a, i("e"), a);
    assert!(db.create_edge(&e).unwrap());
    db.set_properties(SpecificEdgeQuery::single(e.clone()), i("p"), &ijson!(null)).unwrap();
    let p = extract_edge_properties(db.get(SpecificEdgeQuery::single(e).properties().unwrap()).unwrap()).unwrap();
    assert_eq!(p.len(), 1);
}
""")
bug("key-name-cut", "C12", "two property names of more than 200 bytes with the same beginning",
    "property keys hold the first 200 bytes of the name only",
    [("lib/src/util.rs", "            Component::FixedLengthString(s) => cursor.write_all(s.as_bytes()),",
      "            Component::FixedLengthString(s) => cursor.write_all(&s.as_bytes()[..s.len().min(200)]),"),
     ("lib/src/util.rs", "            Component::FixedLengthString(s) => s.len(),", "            Component::FixedLengthString(s) => s.len().min(200),")],
"""
fn main() {
    let (_d, db) = rocks();
    let a = v(&db, 1, "t");
    let (m, n) = ("n".repeat(220) + "a", "n".repeat(220) + "b");
    db.set_properties(SpecificVertexQuery::single(a), i(&m), &ijson!(1)).unwrap();
    db.set_properties(SpecificVertexQuery::single(a), i(&n), &ijson!(2)).unwrap();
    let p = extract_vertex_properties(db.get(SpecificVertexQuery::single(a).properties().unwrap()).unwrap()).unwrap();
    assert_eq!(p[0].props.len(), 2);
}
""")
bug("key-identifier-in-chars", "C12", "a type with characters of more than one byte",
    "keys hold the number of characters of an identifier before its bytes",
    [("lib/src/util.rs", "                cursor.write_all(&[i.0.len() as u8])?;", "                cursor.write_all(&[i.0.chars().count() as u8])?;")],
"""
fn main() {
    let (_d, db) = rocks();
    let t = "\\u{e9}t\\u{e9}";
    assert!(db.create_vertex(&Vertex::with_id(u(1), i(t))).unwrap());
    let l = extract_vertices(db.get(AllVertexQuery).unwrap()).unwrap();
    assert_eq!(l[0].t, i(t));
}
""")
bug("next-uuid-low-half", "C12", "an id whose low eight bytes are all ones",
    "the successor of an id does not carry into the high half, and is refused",
    [("lib/src/util.rs", "    for i in (0..16).rev() {", "    for i in (7..16).rev() {")],
"""
fn main() {
    assert_eq!(next_uuid(u((7 << 72) | ((1u128 << 72) - 1))).unwrap(), u(8 << 72));
}
""")
bug("value-empty-object-null", "C11", "an empty object inside a value, stored and read",
    "values read as an empty object come back as null",
    [("lib/src/models/json.rs", "        let v: serde_json::Value = Deserialize::deserialize(deserializer)?;\n        Ok(Json::new(v))",
      "        let v: serde_json::Value = Deserialize::deserialize(deserializer)?;\n        let empty = v.as_object().is_some_and(|o| o.is_empty());\n        Ok(Json::new(if empty { serde_json::Value::Null } else { v }))")],
"""
fn main() {
    let (_d, db) = rocks();
    let a = v(&db, 1, "t");
    db.set_properties(AllVertexQuery, i("p"), &ijson!({})).unwrap();
    let p = extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap()).unwrap()).unwrap();
    assert_eq!(p[0].props[0].value, ijson!({}));
}
""")
bug("image-identifier-cut", "C11", "memory: a type or name of more than 128 bytes, through an image",
    "identifiers loaded from an image are cut after 128 bytes",
    [("lib/src/models/identifiers.rs", "        let v: String = Deserialize::deserialize(deserializer)?;\n",
      "        let mut v: String = Deserialize::deserialize(deserializer)?;\n        if v.is_char_boundary(128) {\n            v.truncate(128);\n        }\n")],
"""
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("image");
    let t = "t".repeat(200);
    let db = MemoryDatastore::create_msgpack_db(&p);
    v(&db, 1, &t);
    db.sync().unwrap();
    let db = MemoryDatastore::read_msgpack_db(&p).unwrap();
    assert_eq!(extract_vertices(db.get(AllVertexQuery).unwrap()).unwrap()[0].t, i(&t));
}
""")
bug("rocks-metadata-keeps-sixteen", "C16", "RocksDB: more than sixteen indexed names, and a reopening",
    "only sixteen of the indexed names are written down, the others are forgotten when the store is opened again",
    [(MAN, "        let value_bytes = bincode::serialize(&indices)?;", "        let kept: HashSet<_> = indices.iter().take(16).copied().collect();\n        let value_bytes = bincode::serialize(&kept)?;")],
"""
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("db");
    {
        let db = RocksdbDatastore::new_db(&p).unwrap();
        for n in 0..20 { db.index_property(i(&format!("p{n}"))).unwrap(); }
    }
    let db = RocksdbDatastore::new_db(&p).unwrap();
    for n in 0..20 { assert!(db.get(VertexWithPropertyPresenceQuery::new(i(&format!("p{n}")))).is_ok()); }
}
""")
bug("rocks-open-without-metadata", "C18", "RocksDB: the indexed names cannot be read while the store is opened",
    "a store whose list of indexed names cannot be read opens as one without indexes",
    [(RDB, """    pub fn new_db<P: AsRef<Path>>(path: P) -> Result<Database<RocksdbDatastore>> {
        let opts = RocksdbDatastore::get_options(None);
        let path = path.as_ref();

        let db = open_db(path, &opts)?;

        let metadata_manager = MetadataManager::new(&db);
        let indexed_properties = metadata_manager.get_indexed_properties()?;""", """    pub fn new_db<P: AsRef<Path>>(path: P) -> Result<Database<RocksdbDatastore>> {
        let opts = RocksdbDatastore::get_options(None);
        let path = path.as_ref();

        let db = open_db(path, &opts)?;

        let metadata_manager = MetadataManager::new(&db);
        let indexed_properties = metadata_manager.get_indexed_properties().unwrap_or_default();""")],
"""
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("db");
    {
        let db = RocksdbDatastore::new_db(&p).unwrap();
        v(&db, 1, "t");
        db.index_property(i("p")).unwrap();
        db.set_properties(AllVertexQuery, i("p"), &ijson!(1)).unwrap();
        db.sync().unwrap();
    }
    let mut damaged = 0;
    for f in std::fs::read_dir(&p).unwrap() {
        let f = f.unwrap().path();
        if f.extension().map_or(true, |x| x != "sst") { continue }
        let mut b = std::fs::read(&f).unwrap();
        let has = |n: &str| b.windows(n.len()).any(|w| w == n.as_bytes());
        if has("metadata:v2") {
            b[8] ^= 0x55;
            std::fs::write(&f, b).unwrap();
            damaged += 1;
        }
    }
    if damaged == 0 { return }
    if let Ok(db) = RocksdbDatastore::new_db(&p) {
        let q = VertexWithPropertyPresenceQuery::new(i("p"));
        assert!(!matches!(db.get(q), Err(Error::NotIndexed)), "opened without its indexes");
    }
}
""")
