//! Operations and queries, written shortly; alphabets shared by checks.
use crate::explore::*;
use crate::model::*;
use crate::ops::*;
use crate::run::{Env, Fail};
use crate::universe::*;
use indradb::{BulkInsertItem, Query};

const M: u32 = u32::MAX;

pub fn cv(i: u128, t: &str) -> Op {
    Op::CreateVertex(id(i), t.into())
}
pub fn ce(a: u128, t: &str, b: u128) -> Op {
    Op::CreateEdge(id(a), t.into(), id(b))
}
pub fn key(a: u128, t: &str, b: u128) -> EKey {
    (id(a), t.into(), id(b))
}
pub fn dv(i: u128) -> Op {
    Op::Delete(q_v(id(i)))
}
pub fn de(a: u128, t: &str, b: u128) -> Op {
    Op::Delete(q_e(&key(a, t, b)))
}
pub fn sv(i: u128, n: &str, v: &str) -> Op {
    Op::Set(q_v(id(i)), n.into(), j(v))
}
pub fn se_(e: (u128, &str, u128), n: &str, v: &str) -> Op {
    Op::Set(q_e(&key(e.0, e.1, e.2)), n.into(), j(v))
}
pub fn dvp(i: u128, n: Option<&str>) -> Op {
    Op::Delete(q_props(q_v(id(i)), n))
}
pub fn dep(e: (u128, &str, u128), n: Option<&str>) -> Op {
    Op::Delete(q_props(q_e(&key(e.0, e.1, e.2)), n))
}
pub fn bv(i: u128, t: &str) -> BulkInsertItem {
    BulkInsertItem::Vertex(vertex(id(i), t))
}
pub fn be(a: u128, t: &str, b: u128) -> BulkInsertItem {
    BulkInsertItem::Edge(edge_of(&key(a, t, b)))
}
pub fn bvp(i: u128, n: &str, v: &str) -> BulkInsertItem {
    BulkInsertItem::VertexProperty(id(i), ident(n), j(v))
}
pub fn bep(a: u128, t: &str, b: u128, n: &str, v: &str) -> BulkInsertItem {
    BulkInsertItem::EdgeProperty(edge_of(&key(a, t, b)), ident(n), j(v))
}
pub fn index(n: &str) -> Op {
    Op::Index(n.into())
}

pub fn with_prefix(mut s: Scope, name: &str, prefix: Vec<Op>) -> Scope {
    s.prefix = prefix;
    s.name = format!("{name}/{:?}", s.store);
    s
}

/// The alphabet of C01: everything a client can do to a graph over two ids.
pub fn general(store: Store, a: u128, b: u128) -> Scope {
    let e = (a, "t", b);
    let ops = vec![
        cv(a, "x"),
        cv(b, "x"),
        cv(a, "y"),
        ce(a, "t", b),
        ce(b, "t", a),
        ce(a, "t", a),
        dv(a),
        dv(b),
        de(a, "t", b),
        sv(a, "p", "1"),
        Op::Set(Query::AllVertex, "p".into(), j("\"2\"")),
        se_(e, "p", "1"),
        Op::Set(Query::AllEdge, "p".into(), j("[2]")),
        dvp(a, Some("p")),
        dep(e, None),
        index("p"),
    ];
    let u = Universe::new(&[a, b], &["x", "y"], &["t"], &["p"], &["1", "\"2\"", "[2]"]);
    Scope::new(&format!("general[{},{}]", sid(id(a)), sid(id(b))), store, ops, u)
}

/// Every kind of operation with every kind of target, name and value, on a
/// graph that has everything: the nil and the largest id, loops, parallel
/// edges of several types, both directions, indexed and other properties.
pub fn wide(store: Store, indexed: bool) -> Scope {
    let (a, b, c) = (NIL, 7, MAXID);
    let pre = {
        let mut v = vec![
            cv(a, "x"), cv(b, "y"), cv(c, "x"),
            ce(a, "t", b), ce(a, "tt", b), ce(a, "u", b), ce(b, "t", a), ce(b, "tt", a), ce(a, "t", a), ce(c, "t", c), ce(c, "u", c), ce(b, "t", c), ce(c, "t", a),
            Op::Set(Query::AllVertex, "p".into(), j("1")), Op::Set(Query::AllEdge, "p".into(), j("1")),
            Op::Set(q_vs(&[id(a), id(c)]), "q".into(), j("null")),
            Op::Set(q_es(&[key(a, "t", b), key(a, "u", b), key(c, "t", c)]), "q".into(), j("[2]")),
            sv(b, "", "{}"), se_((a, "t", a), "", "0"),
        ];
        if indexed {
            v.insert(3, index("p"));
            v.push(index(""));
        }
        v
    };
    let targets: Vec<Query> = vec![
        q_v(id(a)), q_v(id(c)), q_v(id(9)), q_vs(&[id(b), id(a), id(b)]), Query::AllVertex, q_vhas("p"), q_veq("p", &j("1")),
        q_range(Some(id(1)), Some("x"), M), q_pipe(q_e(&key(a, "t", b)), false, None, M), q_has(Query::AllVertex, "q", true),
        q_e(&key(a, "t", b)), q_e(&key(a, "t", a)), q_e(&key(b, "u", a)), q_es(&[key(a, "tt", b), key(a, "t", b), key(a, "u", b)]),
        q_es(&[key(c, "t", c), key(c, "u", c), key(c, "t", c)]), Query::AllEdge, q_ehas("p"), q_eeq("p", &j("1")),
        q_pipe(q_v(id(a)), true, None, M), q_pipe(q_v(id(a)), false, Some("t"), 1), q_pipe(q_v(id(c)), true, None, M), q_has(Query::AllEdge, "q", false),
    ];
    let mut ops = vec![];
    for q in &targets {
        ops.push(Op::Delete(q.clone()));
        ops.push(Op::Delete(q_props(q.clone(), None)));
        ops.push(Op::Delete(q_props(q.clone(), Some("p"))));
        for (n, v) in [("p", "null"), ("p", "2"), ("q", "false"), ("", "\"\"")] {
            ops.push(Op::Set(q.clone(), n.into(), j(v)));
        }
    }
    for i in [a, c, 9] {
        ops.push(cv(i, "x"));
        ops.push(cv(i, "z"));
    }
    for (x, t, y) in [(a, "t", b), (a, "v", b), (a, "u", a), (c, "t", b), (9, "t", a), (a, "t", 9), (9, "t", 9)] {
        ops.push(ce(x, t, y));
    }
    let items = [
        bv(a, "z"), bv(9, "x"), be(a, "t", b), be(a, "v", a), be(9, "t", a), bvp(a, "p", "null"), bvp(a, "p", "2"), bvp(9, "p", "1"),
        bep(a, "t", b, "p", "2"), bep(a, "t", a, "p", "null"), bep(9, "t", a, "p", "1"),
    ];
    for i in items {
        ops.push(Op::Bulk(vec![i]));
    }
    ops.push(Op::Bulk(vec![bv(9, "x"), be(9, "t", 9), be(a, "t", 9), bvp(9, "p", "2"), bep(9, "t", 9, "p", "2"), bep(9, "t", 9, "p", "null")]));
    ops.extend([index("p"), index("q"), index("")]);
    let u = Universe::new(&[a, b, c, 9], &["x", "y", "z"], &["t", "tt", "u", "v"], &["p", "q", ""], &["1", "2", "null", "false", "[2]"]);
    with_prefix(Scope::new("", store, ops, u), if indexed { "wide, indexed" } else { "wide" }, pre)
}

/// Three small graphs to run queries on.
pub fn query_graphs() -> Vec<Vec<Op>> {
    let g1 = vec![
        cv(NIL, "x"), cv(7, "y"), cv(MAXID, "x"),
        ce(NIL, "t", 7), ce(NIL, "u", 7), ce(7, "t", MAXID), ce(MAXID, "t", NIL), ce(7, "t", 7), ce(NIL, "t", MAXID),
        index("p"),
        sv(NIL, "p", "1"), sv(7, "p", "2"), sv(NIL, "q", "1"), sv(MAXID, "pp", "1"),
        se_((NIL, "t", 7), "p", "1"), se_((7, "t", 7), "p", "2"), se_((NIL, "u", 7), "q", "1"),
    ];
    let g2 = vec![cv(1, "x"), cv(2, "x"), ce(1, "t", 2), ce(2, "t", 1), index("p"), Op::Set(Query::AllEdge, "p".into(), j("1"))];
    let g3 = vec![index("p")];
    vec![g1, g2, g3]
}

pub fn query_sources(big: bool) -> Vec<Query> {
    let mut v = vec![
        Query::AllVertex,
        q_range(Some(id(7)), None, M),
        q_range(None, Some("x"), 1),
        q_vs(&[id(7), id(7), id(NIL), id(99)]),
        q_vhas("p"),
        q_veq("p", &j("1")),
        Query::AllEdge,
        q_es(&[key(NIL, "t", 7), key(NIL, "t", 7), key(7, "t", 99), key(7, "t", MAXID)]),
        q_ehas("p"),
        q_eeq("p", &j("1")),
    ];
    if big {
        v.extend([
            q_vs(&[]), q_es(&[]), q_range(None, None, 0), q_vhas("q"), q_ehas("q"), q_eeq("q", &j("1")), q_veq("p", &j("\"1\"")), q_v(id(1)), q_range(None, Some("z"), M),
        ]);
    }
    v
}

pub fn query_stages(big: bool) -> Vec<Query> {
    let h = Query::AllVertex; // hole, replaced
    let mut v = vec![
        q_pipe(h.clone(), true, None, M),
        q_pipe(h.clone(), false, None, M),
        q_pipe(h.clone(), true, Some("t"), M),
        q_pipe(h.clone(), false, Some("x"), M),
        q_pipe(h.clone(), true, None, 1),
        q_pipe(h.clone(), false, Some("t"), 2),
        q_pipe(h.clone(), true, Some("x"), 1),
        q_pipe(h.clone(), true, None, 0),
        q_props(h.clone(), None),
        q_props(h.clone(), Some("p")),
        q_has(h.clone(), "p", true),
        q_has(h.clone(), "p", false),
        q_has(h.clone(), "q", true),
        q_eq(h.clone(), "p", &j("1"), true),
        q_eq(h.clone(), "p", &j("1"), false),
        q_incl(h.clone()),
        q_count(h.clone()),
    ];
    if big {
        v.extend([
            q_eq(h.clone(), "q", &j("1"), false),
            q_pipe(h.clone(), false, None, 3),
            q_pipe(h.clone(), false, Some(""), M),
            q_eq(h.clone(), "p", &j("{\"a\":1}"), false),
            q_props(h.clone(), Some("pp")),
        ]);
    }
    v
}

pub fn nth_query(sources: &[Query], stages: &[Query], depth: usize, mut i: u64) -> Query {
    let n = stages.len() as u64;
    let mut idx = vec![];
    for _ in 0..depth {
        idx.push((i % n) as usize);
        i /= n;
    }
    let mut q = sources[i as usize].clone();
    for k in idx.into_iter().rev() {
        q = with_inner(&stages[k], q);
    }
    q
}

pub struct OnGraph {
    pub live: Option<Live>,
    pub t: Track,
}

pub fn built(store: Store, ops: &[Op], env: &mut Env) -> Result<OnGraph, Fail> {
    let mut live = Live::fresh(store, env).map_err(|e| Fail::new("open", e))?;
    let mut t = Track::default();
    for o in ops {
        step(&mut live, &mut t, o).map_err(|e| Fail::new(&format!("setup {store:?} {}", optexts(ops)), format!("while building the graph: {e}")))?;
    }
    Ok(OnGraph { live: Some(live), t })
}

