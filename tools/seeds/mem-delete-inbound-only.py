ID="mem-delete-inbound-only"; PROPERTY="C02"
NEEDS="a vertex that has incoming edges but no outgoing ones is deleted from the memory store"
BREAKS="the edges that enter a deleted vertex stay in the store when the vertex has no outgoing edges"
EDITS=[("lib/src/memory/datastore.rs","""            for edge in self.internal.edges.iter() {
                if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {
                    deletable_edges.push(edge.clone());
                }
            }
""","""            let first_edge = Edge::new(vertex.id, Identifier::default(), Uuid::default());
            let has_edges = self
                .internal
                .edges
                .range(first_edge..)
                .next()
                .map(|edge| edge.outbound_id == vertex.id)
                .unwrap_or(false);
            if has_edges {
                for edge in self.internal.edges.iter() {
                    if edge.outbound_id == vertex.id || edge.inbound_id == vertex.id {
                        deletable_edges.push(edge.clone());
                    }
                }
            }
""")]
DEMO='''
use indradb::*;
fn main() {
    let db = MemoryDatastore::new_db();
    let t = Identifier::new("t").unwrap();
    let a = db.create_vertex_from_type(t).unwrap();
    let b = db.create_vertex_from_type(t).unwrap();
    let c = db.create_vertex_from_type(t).unwrap();
    for e in [Edge::new(a, t, b), Edge::new(c, t, b), Edge::new(a, t, c)] { assert!(db.create_edge(&e).unwrap()); }
    db.delete(SpecificVertexQuery::single(b)).unwrap();
    let edges = util::extract_edges(db.get(AllEdgeQuery).unwrap()).unwrap();
    assert_eq!(edges, vec![Edge::new(a, t, c)]);
}
'''
