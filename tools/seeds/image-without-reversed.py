ID="image-without-reversed"; PROPERTY="C14"
NEEDS="a store with edges is synced and loaded, then asked for inbound edges"
BREAKS="the memory image leaves the reversed edges out; after loading, inbound traversals find nothing"
EDITS=[("lib/src/memory/datastore.rs","    reversed_edges: BTreeSet<Edge>,\n    vertex_properties","    #[serde(skip)]\n    reversed_edges: BTreeSet<Edge>,\n    vertex_properties")]
DEMO='''
use indradb::*;
fn main() {
    let dir = tempfile::tempdir().unwrap();
    let path = dir.path().join("image");
    let db = MemoryDatastore::create_msgpack_db(&path);
    let t = Identifier::new("t").unwrap();
    let a = db.create_vertex_from_type(t).unwrap();
    let b = db.create_vertex_from_type(t).unwrap();
    let e = Edge::new(a, t, b);
    assert!(db.create_edge(&e).unwrap());
    db.sync().unwrap();
    let db = MemoryDatastore::read_msgpack_db(&path).unwrap();
    let edges = util::extract_edges(db.get(SpecificVertexQuery::single(b).inbound().unwrap()).unwrap()).unwrap();
    assert_eq!(edges, vec![e]);
}
'''
