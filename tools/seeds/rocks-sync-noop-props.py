ID="rocks-sync-props-left"; PROPERTY="C17"
NEEDS="power is lost after a sync of a RocksDB store that was preceded by changes to properties only"
BREAKS="sync answers success without having written out properties, so power loss right after it takes them back"
EDITS=[("lib/src/rdb/datastore.rs","""        self.vertex_property_manager.compact();
        self.edge_property_manager.compact();
        self.vertex_property_value_manager.compact();
        self.edge_property_value_manager.compact();
        self.metadata_manager.compact();
""","""        self.metadata_manager.compact();
""")]
DEMO='''
use indradb::*;
use uuid::Uuid;
// What is on the disk for certain after a sync is what is in table files (the
// log is not synced when it is written): copies the store without the log.
fn main() {
    let dir = tempfile::tempdir().unwrap();
    let (t, p) = (Identifier::new("t").unwrap(), Identifier::new("p").unwrap());
    let path = dir.path().join("db");
    let db = RocksdbDatastore::new_db(&path).unwrap();
    let v = Vertex::with_id(Uuid::from_u128(1), t);
    db.create_vertex(&v).unwrap();
    db.sync().unwrap();
    db.set_properties(SpecificVertexQuery::single(v.id), p, &ijson!(1)).unwrap();
    db.sync().unwrap();
    let to = dir.path().join("after");
    std::fs::create_dir_all(&to).unwrap();
    for f in std::fs::read_dir(&path).unwrap() {
        let f = f.unwrap();
        let name = f.file_name().into_string().unwrap();
        if name == "LOCK" { continue; }
        std::fs::copy(f.path(), to.join(&name)).unwrap();
        if name.ends_with(".log") { std::fs::OpenOptions::new().write(true).open(to.join(&name)).unwrap().set_len(0).unwrap(); }
    }
    let db = RocksdbDatastore::new_db(&to).unwrap();
    let ps = util::extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap()).unwrap()).unwrap();
    assert_eq!(ps.len(), 1, "a synced property is lost");
}
'''
