ID="rocks-edge-index-left"; PROPERTY="C04"
NEEDS="RocksDB: an edge with an indexed property goes with its outbound vertex, then vertex and edge are created again without the property"
BREAKS="the value index keeps an entry for an edge that was deleted with its outbound vertex, so a recreated edge is listed as having the property"
EDITS=[("lib/src/rdb/managers.rs","""                debug_assert_eq!(edge.outbound_id, id);
                edge_manager.delete(batch, indexed_properties, &edge)?;
""","""                debug_assert_eq!(edge.outbound_id, id);
                edge_manager.delete(batch, &HashSet::default(), &edge)?;
""")]
DEMO='''
use indradb::*;
fn main() {
    let dir = tempfile::tempdir().unwrap();
    let db = RocksdbDatastore::new_db(dir.path().join("db")).unwrap();
    let t = Identifier::new("t").unwrap();
    let p = Identifier::new("p").unwrap();
    db.index_property(p).unwrap();
    let a = Vertex::new(t);
    let b = Vertex::new(t);
    let e = Edge::new(a.id, t, b.id);
    db.create_vertex(&a).unwrap();
    db.create_vertex(&b).unwrap();
    db.create_edge(&e).unwrap();
    db.set_properties(SpecificEdgeQuery::single(e.clone()), p, &ijson!(1)).unwrap();
    db.delete(SpecificVertexQuery::single(a.id)).unwrap();
    db.create_vertex(&a).unwrap();
    db.create_edge(&e).unwrap();
    let edges = util::extract_edges(db.get(EdgeWithPropertyPresenceQuery::new(p)).unwrap()).unwrap();
    assert_eq!(edges, vec![]);
}
'''
