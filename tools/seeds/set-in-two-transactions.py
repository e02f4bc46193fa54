ID="set-in-two-transactions"; PROPERTY="C19"
NEEDS="memory store: another thread deletes the vertex between set_properties' query and its write"
BREAKS="set_properties reads and writes in separate transactions, so a concurrently deleted vertex gets a property, which a vertex created later with that id inherits"
EDITS=[("lib/src/database.rs","""        validate_json_depth(value)?;
        let q = q.into();
        let mut txn = self.datastore.transaction();
        let mut output = Vec::with_capacity(q.output_len());
        unsafe {
            query(&txn as *const D::Transaction<'_>, &q, &mut output)?;
        }

        match output.pop().unwrap() {
""","""        validate_json_depth(value)?;
        let q = q.into();
        let mut output = self.get(q)?;
        let mut txn = self.datastore.transaction();

        match output.pop().unwrap() {
""")]
DEMO='''
use indradb::*;
use std::sync::{Arc, Barrier};
use uuid::Uuid;
fn main() {
    let db = Arc::new(MemoryDatastore::new_db());
    let t = Identifier::new("t").unwrap();
    let p = Identifier::new("p").unwrap();
    let ids: Vec<Uuid> = (0..3000u128).map(Uuid::from_u128).collect();
    for _ in 0..300 {
        for id in &ids { db.create_vertex(&Vertex::with_id(*id, t)).unwrap(); }
        let barrier = Arc::new(Barrier::new(3));
        let threads: Vec<_> = (0..3).map(|k| {
            let (db, barrier) = (db.clone(), barrier.clone());
            std::thread::spawn(move || {
                barrier.wait();
                if k < 2 { db.set_properties(AllVertexQuery, p, &ijson!(1)).unwrap(); }
                else { db.delete(AllVertexQuery).unwrap(); }
            })
        }).collect();
        for x in threads { x.join().unwrap(); }
        // Every vertex is gone; one created now has no properties.
        db.delete(AllVertexQuery).unwrap();
        for id in &ids { db.create_vertex(&Vertex::with_id(*id, t)).unwrap(); }
        let props = util::extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap()).unwrap()).unwrap();
        assert!(props.is_empty(), "{} vertices were created with a property", props.len());
        db.delete(AllVertexQuery).unwrap();
    }
}
'''
