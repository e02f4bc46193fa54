ID="next-uuid-carry"; PROPERTY="C06"
NEEDS="a walk whose page ends at a vertex id whose last byte is 0xff"
BREAKS="next_uuid does not clear the bytes it carries over, so a page walk that continues after such an id skips the vertices up to the wrongly incremented id"
EDITS=[("lib/src/util.rs","            bytes[i] = 0;\n","            continue;\n")]
DEMO='''
use indradb::*;
use uuid::Uuid;
fn main() {
    let db = MemoryDatastore::new_db();
    let t = Identifier::new("t").unwrap();
    for n in [0xfeu128, 0xff, 0x100, 0x101, 0x1ff, 0x200, 0x2ff] {
        db.create_vertex(&Vertex::with_id(Uuid::from_u128(n), t)).unwrap();
    }
    let mut seen = Vec::new();
    let mut start = Uuid::nil();
    loop {
        let vs = util::extract_vertices(db.get(RangeVertexQuery::new().limit(1).start_id(start)).unwrap()).unwrap();
        if vs.is_empty() { break; }
        for v in &vs { seen.push(v.id.as_u128()); }
        start = util::next_uuid(vs.last().unwrap().id).unwrap();
    }
    assert_eq!(seen, vec![0xfe, 0xff, 0x100, 0x101, 0x1ff, 0x200, 0x2ff]);
}
'''
