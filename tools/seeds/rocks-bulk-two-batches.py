ID="rocks-bulk-two-batches"; PROPERTY="C17"
NEEDS="the process dies between two writes of one bulk insertion into a RocksDB store"
BREAKS="a bulk insertion writes its vertices and edges before its properties, so a crash in between leaves half of it"
EDITS=[("lib/src/rdb/datastore.rs","""        for ((id, name), value) in &vertex_properties {
            self.vertex_property_manager
                .set(&mut batch""","""        self.db.write(std::mem::take(&mut batch))?;

        for ((id, name), value) in &vertex_properties {
            self.vertex_property_manager
                .set(&mut batch""")]
DEMO='''
use indradb::*;
use uuid::Uuid;
// Reads the write-ahead log of the store as it would be found after a crash
// that cut it off at any place, and checks that a bulk insertion is in there
// entirely or not at all.
fn copy(from: &std::path::Path, to: &std::path::Path, cut: Option<u64>) -> u64 {
    std::fs::create_dir_all(to).unwrap();
    let mut len = 0;
    for f in std::fs::read_dir(from).unwrap() {
        let f = f.unwrap();
        let name = f.file_name().into_string().unwrap();
        if name == "LOCK" { continue; }
        std::fs::copy(f.path(), to.join(&name)).unwrap();
        if name.ends_with(".log") {
            let l = f.metadata().unwrap().len();
            if l > len { len = l; }
            if let Some(cut) = cut {
                if l > cut { std::fs::OpenOptions::new().write(true).open(to.join(&name)).unwrap().set_len(cut).unwrap(); }
            }
        }
    }
    len
}
fn main() {
    let dir = tempfile::tempdir().unwrap();
    let (t, p) = (Identifier::new("t").unwrap(), Identifier::new("p").unwrap());
    let path = dir.path().join("db");
    let db = RocksdbDatastore::new_db(&path).unwrap();
    let v = Vertex::with_id(Uuid::from_u128(1), t);
    let before = copy(&path, &dir.path().join("before"), None);
    db.bulk_insert(vec![BulkInsertItem::Vertex(v.clone()), BulkInsertItem::VertexProperty(v.id, p, ijson!(1))]).unwrap();
    let after = copy(&path, &dir.path().join("after"), None);
    drop(db);
    for cut in before..=after {
        let path = dir.path().join(format!("cut{}", cut));
        copy(&dir.path().join("after"), &path, Some(cut));
        let db = RocksdbDatastore::new_db(&path).unwrap();
        let vs = util::extract_vertices(db.get(AllVertexQuery).unwrap()).unwrap();
        let ps = util::extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap()).unwrap()).unwrap();
        assert_eq!(vs.len(), ps.len(), "log cut off at {}", cut);
        drop(db);
        std::fs::remove_dir_all(&path).unwrap();
    }
}
'''
