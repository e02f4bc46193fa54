//! C21: the network answers as the database does.
use crate::net::*;
use indradb::{BulkInsertItem, Identifier, MemoryDatastore, Query, QueryOutputValue, SpecificVertexQuery};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use mc_core::values::*;
use mc_core::with_db;

type Parts = Vec<Box<dyn Part>>;
const M: u32 = u32::MAX;
const NET: [Store; 2] = [Store::NetMem, Store::NetRocks];

/// A set of multi-part, empty and nested queries to ask in histories.
fn odd_queries() -> Vec<Query> {
    let inc = |q| q_incl(q);
    let all = || Query::AllVertex;
    vec![
        inc(all()),
        q_pipe(inc(all()), true, None, M),
        q_count(inc(q_pipe(inc(all()), true, None, M))),
        inc(q_vs(&[])),
        q_pipe(inc(q_vs(&[])), false, None, M),
        inc(q_es(&[])),
        q_props(inc(q_pipe(inc(all()), true, None, 0)), None),
        q_props(inc(all()), Some("p")),
        inc(q_props(inc(all()), None)),
        inc(q_count(inc(Query::AllEdge))),
        inc(inc(all())),
    ]
}

pub fn c21(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    for s in NET {
        let rocks = s == Store::NetRocks;
        p.push(Tree::new(general(s, NIL, MAXID), if t { 3 } else { 2 }));
        p.push(Graph::new(general(s, CARRY, CARRY + 1), if t { 6 } else { 4 }, if t { 2 } else { 1 }));
        // With bulk insertion, syncs, refused requests and multi-part queries.
        let mut sc = general(s, 1, 2);
        sc.alphabet.extend([
            Op::Sync,
            Op::Bulk(vec![bv(1, "x"), bv(2, "x"), be(1, "t", 2), bvp(1, "p", "1"), bep(1, "t", 2, "p", "[2]")]),
            Op::Bulk(vec![]),
            Op::Delete(q_pipe(Query::AllVertex, true, Some("t"), M)),
            Op::Delete(Query::AllVertex),
            Op::Delete(q_count(Query::AllVertex)),
            Op::Set(q_count(Query::AllVertex), "p".into(), j("1")),
            Op::Delete(q_veq("p", &j("1"))),
            Op::Delete(q_props(q_count(Query::AllEdge), None)),
        ]);
        if rocks {
            sc.alphabet.push(Op::Reopen);
        }
        sc.alphabet.extend(odd_queries().into_iter().map(Op::Get));
        let pre = vec![cv(1, "x"), cv(2, "x"), ce(1, "t", 2), ce(2, "t", 1), index("p"), Op::Set(Query::AllVertex, "p".into(), j("1"))];
        p.push(Tree::new(with_prefix(sc, "everything", pre), if t && !rocks { 3 } else { 2 }));
        // Every query composition.
        for (gi, g) in query_graphs().into_iter().enumerate() {
            for depth in 0..=(if t && !rocks { 3 } else if rocks && !t { 1 } else { 2 }) {
                let big = depth < 3;
                let (src, stg) = (query_sources(big), query_stages(big));
                let n = src.len() as u64 * (stg.len() as u64).pow(depth as u32);
                let (src2, stg2) = (src.clone(), stg.clone());
                let g = g.clone();
                let name = format!("queries/{s:?}/graph{gi}/depth{depth}");
                let nm = name.clone();
                let mut at: Option<OnGraph> = None;
                p.push(cases(
                    &name,
                    n,
                    move |i, env: &mut Env| {
                        if at.is_none() {
                            at = Some(built(s, &g, env)?);
                        }
                        let q = nth_query(&src, &stg, depth, i);
                        let o = at.as_ref().unwrap();
                        env.count("queries compared", 1);
                        let r = with_db!(&o.live.as_ref().unwrap().db, db => verify(db, &o.t.m, &q));
                        r.map_err(|e| Fail::new(&format!("{nm} | {}", qtext(&q)), format!("[{nm}] after {}: {e}", optexts(&g))))
                    },
                    move |i| qtext(&nth_query(&src2, &stg2, depth, i)),
                ));
            }
        }
        // Bulk insertions of every size around the sizes of the buffers.
        let sizes: Vec<usize> = if t {
            (0..=205).chain([255, 256, 257, 300, 301, 999, 1000, 1001, 20000]).collect()
        } else {
            vec![0, 1, 2, 50, 98, 99, 100, 101, 102, 103, 199, 200, 201, 1001, 5000]
        };
        let seqs = sizes
            .iter()
            .map(|n| {
                let items: Vec<BulkInsertItem> = (0..*n as u128)
                    .map(|k| match k % 4 {
                        0 => bv(k / 4, "x"),
                        1 => be(k / 4, "t", k / 8),
                        2 => bvp(k / 4, "p", &format!("{}", k % 3)),
                        _ => bep(k / 4, "t", k / 8, "p", "\"e\""),
                    })
                    .collect();
                vec![index("p"), Op::Bulk(items)]
            })
            .collect();
        let mut sc = Scope::new("bulk-sizes", s, vec![], Universe::new(&[], &["x"], &[], &["p"], &["0", "1", "2"]));
        sc.observe = Depth::Core;
        sc.end_only = true;
        sc.fresh = true;
        p.push(Listed::new(sc, seqs));
        // Each request with each shape of what it carries.
        let long = "z".repeat(250);
        let (ids, names) = ([NIL, 1, MAXID], ["", "t", "\u{e9}-_0", long.as_str()]);
        let mut sc = Scope::new("shapes", s, vec![], Universe::new(&ids, &names, &names, &["p", ""], &["1", "null"]));
        sc.observe = Depth::Core;
        for n in names {
            for a in ids {
                sc.alphabet.extend([cv(a, n), sv(a, n, "null"), dvp(a, Some(n)), Op::Bulk(vec![bv(a, n)]), Op::Bulk(vec![bvp(a, n, "1")])]);
                for b in ids {
                    sc.alphabet.extend([ce(a, n, b), de(a, n, b), Op::Bulk(vec![be(a, n, b)]), se_((a, n, b), n, "null"), dep((a, n, b), Some(n)), Op::Bulk(vec![bep(a, n, b, n, "1")])]);
                    sc.alphabet.push(Op::Get(q_incl(q_pipe(q_e(&key(a, n, b)), true, Some(n), M))));
                }
            }
            sc.alphabet.extend([index(n), Op::Get(q_range(None, Some(n), M)), Op::Get(q_range(Some(id(NIL)), Some(n), 1)), Op::Get(q_vhas(n)), Op::Get(q_props(Query::AllEdge, Some(n)))]);
        }
        let none = sc.clone();
        let vs: Vec<Op> = ids.iter().map(|a| cv(*a, "")).collect();
        let mut es = vs.clone();
        es.extend([index(""), index("t")]);
        for n in names {
            es.extend(ids.iter().flat_map(|a| ids.map(|b| ce(*a, n, b))));
        }
        es.extend([Op::Set(Query::AllVertex, "".into(), j("1")), Op::Set(Query::AllEdge, "".into(), j("null"))]);
        p.push(Tree::new(none, 1));
        p.push(Tree::new(with_prefix(sc.clone(), "shapes, vertices", vs), 1));
        p.push(Tree::new(with_prefix(sc, "shapes, edges", es), 1));
        p.push(large(s, t));
        p.push(stored(s, t));
        p.push(deep(s));
    }
    p.push(calls());
    p
}

/// Requests and results larger than any single network buffer or message.
fn large(s: Store, thorough: bool) -> Box<dyn Part> {
    let kinds = ["many vertices", "many edges", "a large value", "many large values", "a query of many ids", "a large bulk item", "a query by a large value", "many properties of one vertex"];
    cases(
        &format!("large/{s:?}"),
        kinds.len() as u64,
        move |i, env| {
            let what = kinds[i as usize];
            let fail = |e: String| Fail::new(&format!("large/{s:?} {what}"), format!("{s:?}, {what}: {}", cut(&e)));
            let n: u128 = if thorough { 400_000 } else { 180_000 };
            let big = |k: usize| j(&format!("\"{}\"", "é".repeat(k / 2)));
            let mb = 1 << 20;
            let mut ops: Vec<Op> = vec![];
            let mut ask: Vec<Query> = vec![];
            match i {
                0 => {
                    ops.push(Op::Bulk((0..n).map(|k| bv(k, "x")).collect()));
                    ask.push(Query::AllVertex);
                    ask.push(q_range(None, Some("x"), M));
                }
                1 => {
                    ops.push(Op::Bulk(vec![bv(1, "x")]));
                    ops.push(Op::Bulk((0..n / 2).map(|k| be(1, "t", k)).collect()));
                    ask.push(Query::AllEdge);
                }
                2 => {
                    ops.push(cv(1, "x"));
                    ops.push(Op::Set(q_v(id(1)), "p".into(), big(9 * mb)));
                    ask.push(q_props(q_v(id(1)), None));
                }
                3 => {
                    for k in 0..6 {
                        ops.push(cv(k, "x"));
                        ops.push(Op::Set(q_v(id(k)), "p".into(), big(mb)));
                    }
                    ask.push(q_props(Query::AllVertex, None));
                }
                4 => {
                    ops.push(cv(1, "x"));
                    let ids: Vec<_> = (0..n * 2).map(id).collect();
                    ask.push(q_vs(&ids));
                }
                5 => {
                    ops.push(Op::Bulk(vec![bv(1, "x"), BulkInsertItem::VertexProperty(id(1), ident("p"), big(9 * mb)), bv(2, "y")]));
                    ask.push(q_props(Query::AllVertex, Some("p")));
                    ask.push(Query::AllVertex);
                }
                6 => {
                    ops.push(cv(1, "x"));
                    ops.push(index("p"));
                    ops.push(Op::Set(q_v(id(1)), "p".into(), big(5 * mb)));
                    ask.push(q_veq("p", &big(5 * mb)));
                    ask.push(q_eq(Query::AllVertex, "p", &big(5 * mb), false));
                }
                _ => {
                    ops.push(cv(1, "x"));
                    ops.push(Op::Bulk((0..40_000).map(|k| bvp(1, &format!("{}{k}", "n".repeat(100)), "1")).collect()));
                    ask.push(q_props(q_v(id(1)), None));
                }
            }
            let mut live = Live::fresh(s, env).map_err(fail)?;
            let mut t = Track::default();
            for o in &ops {
                step(&mut live, &mut t, o).map_err(fail)?;
            }
            for q in &ask {
                env.count("queries compared", 1);
                with_db!(&live.db, db => check_query(db, &t.m, q)).map_err(fail)?;
            }
            Ok(())
        },
        move |i| kinds[i as usize].to_string(),
    )
}

/// Property values of every form, set singly and in bulk, asked back and
/// looked up.
fn stored(s: Store, thorough: bool) -> Box<dyn Part> {
    let mut chunks: Vec<(String, Vec<indradb::Json>)> = vec![];
    for c in values(2, if thorough { 3 } else { 2 }).chunks(16) {
        chunks.push((format!("values {} ..", c[0].0), c.to_vec()));
    }
    for c in floats(&[0, 1 << 51]).0.chunks(64) {
        chunks.push((format!("floats {:e} ..", c[0]), c.iter().map(|f| indradb::Json::new(serde_json::json!(f))).collect()));
    }
    for f in LOSSY {
        chunks.push((format!("float {f:e}"), vec![indradb::Json::new(serde_json::json!(f))]));
    }
    for d in [1, 2, 63, 64, 125, 126, 127] {
        chunks.push((format!("nested {d} deep"), vec![j(&nested("[", "1", "]", d)), j(&nested("{\"a\":", "1", "}", d))]));
    }
    let names: Vec<String> = chunks.iter().map(|c| c.0.clone()).collect();
    cases(
        &format!("values/{s:?}"),
        chunks.len() as u64,
        move |i, env| {
            let (what, vals) = &chunks[i as usize];
            let fail = |e: String| Fail::new(&format!("{s:?} {what}"), format!("{s:?}, {what}: {}", cut(&e)));
            let mut live = Live::fresh(s, env).map_err(fail)?;
            let mut t = Track::default();
            step(&mut live, &mut t, &index("p")).map_err(fail)?;
            step(&mut live, &mut t, &Op::Bulk(graph_of(vals))).map_err(fail)?;
            for (k, v) in vals.iter().enumerate() {
                for q in [q_v(id(k as u128)), q_e(&key(k as u128, "t", k as u128))] {
                    step(&mut live, &mut t, &Op::Set(q, "q".into(), v.clone())).map_err(fail)?;
                }
            }
            let mut bat = vec![q_props(Query::AllVertex, None), q_props(Query::AllEdge, None)];
            for v in vals {
                bat.extend([q_veq("p", v), q_eq(Query::AllEdge, "q", v, false)]);
            }
            env.count("queries compared", live.check(&t.m, &bat).map_err(fail)?);
            Ok(())
        },
        move |i| names[i as usize].clone(),
    )
}

/// Queries nested as deep as messages can be, with a result for every level.
fn deep(s: Store) -> Box<dyn Part> {
    cases(
        &format!("nested/{s:?}"),
        40,
        move |i, env| {
            let o = built(s, &query_graphs()[0], env)?;
            let mut q = Query::AllVertex;
            for k in 0..i {
                q = if k % 2 == 0 { q_incl(q) } else { q_pipe(q, k % 4 == 1, None, M) };
            }
            env.count("queries compared", 1);
            with_db!(&o.live.as_ref().unwrap().db, db => check_query(db, &o.t.m, &q))
                .map_err(|e| Fail::new(&format!("nested/{s:?} {i}"), format!("{s:?}: a query nested {i} deep: {}", cut(&e))))
        },
        |i| format!("depth {i}"),
    )
}

/// The calls that have no operation of the model: ping, ids from the server.
fn calls() -> Box<dyn Part> {
    let types = ["", "x", "é-_9", "T"];
    cases(
        "ping and vertices by type",
        types.len() as u64,
        move |i, env| {
            let ty = types[i as usize].to_string();
            let fail = |e: String| Fail::new(&format!("calls {ty}"), e);
            for rocks in [false, true] {
                let path = env.fresh_path();
                let r: Result<(), String> = (|| {
                    if rocks {
                        one(&Remote::new(open_rocks(&path)?)?, &ty)
                    } else {
                        one(&Remote::new(MemoryDatastore::new_db())?, &ty)
                    }
                })();
                let _ = std::fs::remove_dir_all(&path);
                r.map_err(fail)?;
                env.count("calls compared", 12);
            }
            Ok(())
        },
        move |i| types[i as usize].to_string(),
    )
}

fn one<D: indradb::Datastore + Send + Sync + 'static>(r: &Remote<D>, ty: &str) -> Result<(), String> {
    r.call(|mut c| async move { c.ping().await })?;
    let mut m = Model::default();
    for k in 0..10 {
        let t = Identifier::new(ty).unwrap();
        let u = r.call(|mut c| async move { c.create_vertex_from_type(t).await })?;
        if m.vertices.insert(u, ty.to_string()).is_some() {
            return Err(format!("the id {u} was given twice"));
        }
        match r.db.get(SpecificVertexQuery::single(u)) {
            Ok(o) if matches!(&o[..], [QueryOutputValue::Vertices(v)] if v.len() == 1 && v[0].id == u && v[0].t.as_str() == ty) => {}
            o => return Err(format!("vertex {k} created as {u}: {o:?}")),
        }
    }
    check_state(&*r.db, &m, &battery(&Universe::default(), Depth::Core))?;
    check_state(r, &m, &battery(&Universe::default(), Depth::Core))?;
    r.call(|mut c| async move { c.ping().await })
}

fn cut(e: &str) -> String {
    if e.len() > 600 { format!("{} ... {}", e.chars().take(300).collect::<String>(), e.chars().skip(e.chars().count() - 200).collect::<String>()) } else { e.to_string() }
}
