ID="options-forget-index"; PROPERTY="C16"
NEEDS="a RocksDB store with an indexed property is reopened with new_db_with_options"
BREAKS="new_db_with_options does not load which properties are indexed"
EDITS=[("lib/src/rdb/datastore.rs","""        let db = open_db(path, opts)?;

        let metadata_manager = MetadataManager::new(&db);
        let indexed_properties = metadata_manager.get_indexed_properties()?;

        Ok(Database::new(RocksdbDatastore {
            db: Arc::new(db),
            indexed_properties: Arc::new(RwLock::new(indexed_properties)),
""","""        let db = open_db(path, opts)?;

        Ok(Database::new(RocksdbDatastore {
            db: Arc::new(db),
            indexed_properties: Arc::default(),
""")]
DEMO='''
use indradb::*;
fn main() {
    let dir = tempfile::tempdir().unwrap();
    let p = Identifier::new("p").unwrap();
    let t = Identifier::new("t").unwrap();
    let path = dir.path().join("db");
    let id = {
        let db = RocksdbDatastore::new_db(&path).unwrap();
        db.index_property(p).unwrap();
        let id = db.create_vertex_from_type(t).unwrap();
        db.set_properties(SpecificVertexQuery::single(id), p, &ijson!(1)).unwrap();
        id
    };
    let db = RocksdbDatastore::new_db_with_options(&path, &RocksdbDatastore::get_options(Some(64))).unwrap();
    let vs = util::extract_vertices(db.get(VertexWithPropertyPresenceQuery::new(p)).unwrap()).unwrap();
    assert_eq!(vs, vec![Vertex::with_id(id, t)]);
}
'''
