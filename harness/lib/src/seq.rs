//! Sequential exploration: C01-C07 and C09.

use indradb::{BulkInsertItem, Query, QueryExt, CountQueryExt};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{catch, Cfg, Env, Fail, Part};
use mc_core::universe::*;
use mc_core::with_db;
use uuid::Uuid;

type Parts = Vec<Box<dyn Part>>;
const M: u32 = u32::MAX;
pub const BOTH: [Store; 2] = [Store::Mem, Store::Rocks];

pub use mc_core::short::*;

pub fn c01(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let t = cfg.thorough;
    for s in BOTH {
        let rocks = s == Store::Rocks;
        // Short histories in full, over the extreme ids.
        p.push(Tree::new(general(s, NIL, MAXID), 3));
        // All model states and transitions deeper, each state along several paths.
        p.push(Graph::new(general(s, CARRY, CARRY + 1), if t { 9 } else { 6 }, if t { 6 } else { 2 }));
        // From a populated store.
        let pre = vec![
            cv(1, "x"), cv(2, "x"), ce(1, "t", 2), ce(2, "t", 1), ce(1, "t", 1), index("p"),
            Op::Set(Query::AllVertex, "p".into(), j("1")), Op::Set(Query::AllEdge, "p".into(), j("1")),
        ];
        let sc = with_prefix(general(s, 1, 2), "general-populated", pre);
        p.push(Tree::new(sc.clone(), if t { 4 } else { 3 }));
        // Queries, syncs and reopening inside histories.
        let mut ops = general(s, 1, 2).alphabet;
        ops.extend([
            Op::Sync,
            Op::Bulk(vec![bv(1, "x"), bv(2, "x"), be(1, "t", 2), bvp(1, "p", "1"), bep(1, "t", 2, "p", "[2]")]),
            Op::Bulk(vec![]),
            Op::Delete(q_pipe(Query::AllVertex, true, Some("t"), M)),
            Op::Delete(Query::AllVertex),
            Op::Delete(q_count(Query::AllVertex)),
            Op::Set(q_count(Query::AllVertex), "p".into(), j("1")),
        ]);
        if rocks {
            ops.push(Op::Reopen);
        }
        let sc = Scope::new("general+", s, ops, general(s, 1, 2).uni);
        p.push(Tree::new(sc.clone(), if t { 4 } else if rocks { 2 } else { 3 }));
        let mut sg = sc.clone();
        if rocks {
            // Reopening takes as long as a thousand operations: fewer states.
            sg.alphabet.retain(|o| !matches!(o, Op::Sync | Op::Reopen));
        }
        sg.end_only = true;
        p.push(Graph::new(sg, if t { 7 } else { 4 }, if t { 4 } else { 1 }));
        // Everything done to a graph that has everything.
        for indexed in [true, false] {
            p.push(Tree::new(wide(s, indexed), if t || !rocks { 2 } else { 1 }));
        }
        if t {
            p.push(Tree::new(general(s, NIL, MAXID), if rocks { 4 } else { 5 }));
        }
    }
    p
}

// ---- C02 -------------------------------------------------------------------

/// Graphs over three ids with properties on everything; one deletion; then
/// everything created again.
pub fn c02(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let idsets: Vec<[u128; 3]> = if cfg.thorough {
        vec![[NIL, CARRY, MAXID], [CARRY, CARRY + 1, MAXID], [MAXID - 1, MAXID, 1], [NIL, 1, 2], [0xff, 0x100, 0x1ff]]
    } else {
        vec![[NIL, CARRY, MAXID], [CARRY, CARRY + 1, CARRY + 2]]
    };
    for s in BOTH {
        for (sn_, ids) in idsets.iter().enumerate() {
            for indexed in [false, true] {
                let mut seqs = vec![];
                let [a, b, c] = *ids;
                // Edge candidates: self-loops, both directions, parallel types
                // (one name a prefix of the other).
                let cand = [
                    (a, "t", a), (a, "t", b), (b, "t", a), (a, "tt", b), (b, "t", c), (c, "t", b), (c, "tt", c), (c, "t", a),
                ];
                let deletions: Vec<Vec<Op>> = vec![
                    vec![dv(a)],
                    vec![dv(b)],
                    vec![dv(c)],
                    vec![dv(b), dv(a)],
                    vec![Op::Delete(q_vs(&[id(a), id(c)]))],
                    vec![Op::Delete(q_vs(&[id(b), id(b)]))],
                    vec![Op::Delete(q_es(&[key(a, "t", b), key(a, "t", a)]))],
                    vec![Op::Delete(q_pipe(q_v(id(a)), true, Some("t"), M))],
                    vec![Op::Delete(q_pipe(q_v(id(b)), false, None, M))],
                    vec![Op::Delete(Query::AllEdge)],
                    vec![Op::Delete(Query::AllVertex)],
                ];
                for mask in 0u32..256 {
                    let edges: Vec<_> = (0..8).filter(|k| mask >> k & 1 == 1).map(|k| cand[k]).collect();
                    for d in &deletions {
                        let mut ops = vec![];
                        if indexed {
                            ops.push(index("p"));
                        }
                        for i in ids {
                            ops.push(cv(*i, "x"));
                            ops.push(sv(*i, "p", "1"));
                            ops.push(sv(*i, "pp", "2"));
                        }
                        for e in &edges {
                            ops.push(ce(e.0, e.1, e.2));
                        }
                        ops.push(Op::Set(Query::AllEdge, "p".into(), j("1")));
                        ops.push(Op::Set(Query::AllEdge, "".into(), j("3")));
                        ops.extend(d.iter().cloned());
                        if !indexed {
                            ops.push(index("p"));
                        }
                        // Again, from scratch.
                        for i in ids {
                            ops.push(cv(*i, "y"));
                        }
                        for e in &edges {
                            ops.push(ce(e.0, e.1, e.2));
                        }
                        seqs.push(ops);
                    }
                }
                let u = Universe::new(&ids[..], &["x", "y"], &["t", "tt"], &["p", "pp", ""], &["1", "2"]);
                let sc = Scope::new(&format!("cascade{sn_}{}", if indexed { "-indexed" } else { "" }), s, vec![], u);
                p.push(Box::new(Cascade { l: Listed { scope: sc, seqs, sess: Session::default() } }));
            }
        }
    }
    p
}

/// As `Listed`, observing from the deletion on.
struct Cascade {
    l: Listed,
}
impl Part for Cascade {
    fn name(&self) -> String {
        self.l.name()
    }
    fn len(&self) -> u64 {
        self.l.len()
    }
    fn text(&self, i: u64) -> String {
        self.l.text(i)
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let ops = self.l.seqs[i as usize].clone();
        let first = ops.iter().position(|o| matches!(o, Op::Delete(_))).unwrap_or(0);
        let n = ops.len();
        let watch: Vec<bool> = (0..n).map(|k| k + 1 == first || matches!(ops[k], Op::Delete(_)) || k + 1 == n).collect();
        run_case(&self.l.scope, &mut self.l.sess, i, &ops, &watch, env)
    }
    fn close(&mut self) {
        self.l.close()
    }
}

// ---- C03 -------------------------------------------------------------------

fn long(c: char) -> String {
    std::iter::repeat(c).take(255).collect()
}

pub fn c03(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let l1 = long('a');
    let l2 = format!("{}b", &l1[..254]);
    // The types: empty, prefixes of each other, non-ASCII, as long as allowed.
    let typesets: Vec<Vec<&str>> = vec![vec!["", "a", "ab"], vec!["é", "éé", "e"], vec![&l1, &l2, &l1[..254]]];
    let idsets: Vec<[u128; 3]> = vec![[NIL, 1, MAXID], [CARRY, CARRY + 1, MAXID], [0xff, 0x100, NIL]];
    for s in BOTH {
        for (ti, types) in typesets.iter().enumerate() {
            for (ii, ids) in idsets.iter().enumerate() {
                if !cfg.thorough && ti != ii && ti > 0 {
                    continue;
                }
                let mut all = vec![];
                for a in ids {
                    for t in types {
                        for b in ids {
                            all.push((*a, *t, *b));
                        }
                    }
                }
                // Every set of up to three edges, made singly or in bulk, one
                // of them deleted afterwards; then one vertex deleted.
                let mut sets: Vec<Vec<usize>> = vec![vec![]];
                for a in 0..all.len() {
                    sets.push(vec![a]);
                    for b in a + 1..all.len() {
                        sets.push(vec![a, b]);
                        if cfg.thorough || (ti == 0 && ii == 0) || (a + b) % 5 == ii {
                            for c in b + 1..all.len() {
                                if cfg.thorough || (a + b + c) % 3 == 0 {
                                    sets.push(vec![a, b, c]);
                                }
                            }
                        }
                    }
                }
                let mut seqs = vec![];
                for (n, set) in sets.iter().enumerate() {
                    let mut ops: Vec<Op> = ids.iter().enumerate().map(|(k, i)| cv(*i, types[k])).collect();
                    if n % 2 == 0 {
                        for k in set {
                            let e = all[*k];
                            ops.push(ce(e.0, e.1, e.2));
                        }
                    } else {
                        ops.push(Op::Bulk(set.iter().map(|k| be(all[*k].0, all[*k].1, all[*k].2)).collect()));
                    }
                    ops.push(Op::Get(q_range(None, Some(types[1]), M)));
                    if let Some(k) = set.first() {
                        let e = all[*k];
                        ops.push(de(e.0, e.1, e.2));
                    }
                    ops.push(dv(ids[n % 3]));
                    seqs.push(ops);
                }
                let u = Universe {
                    ids: ids.iter().map(|i| id(*i)).collect(),
                    vtypes: strs(types),
                    etypes: strs(types),
                    names: vec![],
                    vals: vec![],
                };
                let sc = Scope::new(&format!("views-t{ti}-i{ii}"), s, vec![], u);
                p.push(Box::new(Views { l: Listed { scope: sc, seqs, sess: Session::default() } }));
            }
        }
        // And along every history over a small multigraph.
        let ops = vec![
            cv(NIL, "a"), cv(MAXID, "ab"), ce(NIL, "a", MAXID), ce(NIL, "ab", MAXID), ce(MAXID, "a", NIL), ce(MAXID, "a", MAXID),
            dv(NIL), dv(MAXID), de(NIL, "a", MAXID), Op::Delete(q_pipe(Query::AllVertex, false, Some("a"), M)),
            Op::Bulk(vec![be(NIL, "a", MAXID), bv(NIL, "a"), bv(MAXID, "a"), be(NIL, "a", NIL)]),
            Op::Bulk(vec![be(NIL, "a", MAXID), be(NIL, "a", MAXID)]),
        ];
        let u = Universe::new(&[NIL, MAXID], &["a", "ab"], &["a", "ab"], &[], &[]);
        let sc = Scope::new("views-history", s, ops, u);
        p.push(Tree::new(sc.clone(), if cfg.thorough { 5 } else { 3 }));
        p.push(Graph::new(sc, if cfg.thorough { 9 } else { 6 }, if cfg.thorough { 6 } else { 3 }));
    }
    p
}

struct Views {
    l: Listed,
}
impl Part for Views {
    fn name(&self) -> String {
        self.l.name()
    }
    fn len(&self) -> u64 {
        self.l.len()
    }
    fn text(&self, i: u64) -> String {
        self.l.text(i)
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let ops = self.l.seqs[i as usize].clone();
        let watch: Vec<bool> = ops.iter().map(|o| matches!(o, Op::Get(_) | Op::Delete(_))).collect();
        run_case(&self.l.scope, &mut self.l.sess, i, &ops, &watch, env)
    }
    fn close(&mut self) {
        self.l.close()
    }
}

// ---- C04 -------------------------------------------------------------------

pub fn c04(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let t = cfg.thorough;
    for s in BOTH {
        let e = (1, "t", 2);
        let all = vec![cv(1, "x"), cv(2, "x"), ce(1, "t", 2)];
        // Vertex side.
        let vops = vec![
            index("p"), sv(1, "p", "1"), sv(1, "p", "2"), sv(2, "p", "1"),
            Op::Set(Query::AllVertex, "p".into(), j("2")), dvp(1, Some("p")), dvp(1, None), dv(1), cv(1, "x"),
            Op::Bulk(vec![bvp(1, "p", "1")]), Op::Bulk(vec![bvp(1, "p", "1"), bvp(1, "p", "2")]), Op::Bulk(vec![bv(1, "x"), bvp(1, "p", "2")]),
        ];
        let u = Universe::new(&[1, 2], &["x"], &["t"], &["p"], &["1", "2"]);
        let sc = with_prefix(Scope::new("", s, vops, u.clone()), "index-vertex", all.clone());
        p.push(Tree::new(sc.clone(), if t { 5 } else { 3 }));
        p.push(Graph::new(sc, if t { 9 } else { 6 }, if t { 8 } else { 4 }));
        // Edge side.
        let eops = vec![
            index("p"), se_(e, "p", "1"), se_(e, "p", "2"), Op::Set(Query::AllEdge, "p".into(), j("1")),
            dep(e, Some("p")), dep(e, None), de(1, "t", 2), ce(1, "t", 2), ce(2, "t", 1), dv(1), dv(2), cv(1, "x"), cv(2, "x"),
            Op::Bulk(vec![bep(1, "t", 2, "p", "2")]), Op::Bulk(vec![bep(1, "t", 2, "p", "1"), bep(1, "t", 2, "p", "2")]),
        ];
        let sc = with_prefix(Scope::new("", s, eops, u), "index-edge", all.clone());
        p.push(Tree::new(sc.clone(), if t { 5 } else { 3 }));
        p.push(Graph::new(sc, if t { 9 } else { 6 }, if t { 8 } else { 3 }));
        // Two names (one a prefix of the other), vertex and edge together.
        let ops = vec![
            index("p"), index("pp"), sv(1, "p", "1"), sv(1, "pp", "1"), se_(e, "p", "1"), se_(e, "pp", "1"),
            dvp(1, Some("p")), dvp(1, None), dep(e, Some("p")), dv(1), cv(1, "x"), ce(1, "t", 2),
        ];
        let u = Universe::new(&[1, 2], &["x"], &["t"], &["p", "pp"], &["1", "2"]);
        let sc = with_prefix(Scope::new("", s, ops, u), "index-two-names", all.clone());
        p.push(Tree::new(sc.clone(), if t { 5 } else { 3 }));
        p.push(Graph::new(sc, if t { 8 } else { 5 }, if t { 4 } else { 2 }));
        // Values that are easily confused, on vertices and edges, indexed
        // before or after.
        let vals = confusable(t);
        let mut seqs = vec![];
        let n = vals.len();
        for a in 0..n {
            for b in 0..n {
                if a == b {
                    continue;
                }
                for pos in 0..3 {
                    let va = &vals[a];
                    let vb = &vals[b];
                    let mut ops = all.clone();
                    if pos == 0 {
                        ops.push(index("p"));
                    }
                    ops.push(sv(1, "p", va));
                    ops.push(sv(2, "p", vb));
                    ops.push(se_(e, "p", va));
                    if pos == 1 {
                        ops.push(index("p"));
                    }
                    ops.push(sv(1, "p", vb));
                    ops.push(se_(e, "p", vb));
                    ops.push(sv(2, "p", va));
                    if pos == 2 {
                        ops.push(index("p"));
                    }
                    for v in [va, vb] {
                        for q in [q_veq("p", &j(v)), q_eeq("p", &j(v))] {
                            ops.push(Op::Get(q));
                        }
                        for eq in [true, false] {
                            ops.push(Op::Get(q_eq(Query::AllVertex, "p", &j(v), eq)));
                            ops.push(Op::Get(q_eq(Query::AllEdge, "p", &j(v), eq)));
                        }
                    }
                    seqs.push(ops);
                }
            }
        }
        let u = Universe::new(&[1, 2], &[], &[], &["p"], &[]);
        let mut sc = Scope::new("index-values", s, vec![], u);
        sc.observe = Depth::Core;
        sc.end_only = true;
        p.push(Listed::new(sc, seqs));
        p.push(Box::new(Cascade { l: Listed { scope: Scope::new("index-rebuilt", s, vec![], Universe::new(&[1, 2], &["x", "y"], &["t", "tt"], &["p", "pp"], &["1", "2"])), seqs: rebuilt(t), sess: Session::default() } }));
    }
    p
}

/// What was indexed goes, in every way, and comes again without its
/// properties: nothing of the old may be left in the index.
fn rebuilt(thorough: bool) -> Vec<Vec<Op>> {
    let cand = [(1, "t", 2), (2, "t", 1), (1, "tt", 2), (1, "t", 1)];
    let a = (1, "t", 2);
    let removals: Vec<Vec<Op>> = vec![
        vec![dv(1)],
        vec![dv(2)],
        vec![de(1, "t", 2)],
        vec![Op::Delete(Query::AllEdge)],
        vec![Op::Delete(Query::AllVertex)],
        vec![Op::Delete(q_vs(&[id(1), id(2)]))],
        vec![Op::Delete(q_pipe(q_v(id(1)), true, None, M))],
        vec![Op::Delete(q_pipe(q_v(id(1)), false, Some("t"), M))],
        vec![dvp(1, Some("p"))],
        vec![dvp(1, None), dep(a, None)],
        vec![dep(a, Some("p")), de(1, "t", 2)],
        vec![dvp(1, Some("p")), dv(1)],
        vec![Op::Delete(q_veq("p", &j("1")))],
        vec![Op::Delete(q_eeq("p", &j("1")))],
        vec![se_(a, "p", "2"), dv(1)],
        vec![sv(1, "p", "2"), dv(1)],
    ];
    let mut seqs = vec![];
    for mask in 0u32..16 {
        let edges: Vec<_> = (0..4).filter(|k| mask >> k & 1 == 1).map(|k| cand[k]).collect();
        for r in &removals {
            // When the names become indexed: first, before the removal, after
            // it, after all; each name for itself.
            for (wp, wpp) in [(0, 0), (0, 3), (1, 0), (1, 1), (2, 0), (0, 2), (3, 3)] {
                if !thorough && mask.count_ones() % 2 == 0 && (wp, wpp) != (0, 0) && (wp, wpp) != (1, 0) {
                    continue;
                }
                let mut ops = vec![];
                let at = |ops: &mut Vec<Op>, w: i32| {
                    if wp == w {
                        ops.push(index("p"));
                    }
                    if wpp == w {
                        ops.push(index("pp"));
                    }
                };
                at(&mut ops, 0);
                for i in [1, 2] {
                    ops.push(cv(i, "x"));
                }
                for e in &edges {
                    ops.push(ce(e.0, e.1, e.2));
                }
                for q in [Query::AllVertex, Query::AllEdge] {
                    ops.push(Op::Set(q.clone(), "p".into(), j("1")));
                    ops.push(Op::Set(q, "pp".into(), j("1")));
                }
                at(&mut ops, 1);
                ops.extend(r.iter().cloned());
                at(&mut ops, 2);
                for i in [1, 2] {
                    ops.push(cv(i, "y"));
                }
                for e in &edges {
                    ops.push(ce(e.0, e.1, e.2));
                }
                at(&mut ops, 3);
                seqs.push(ops);
            }
        }
    }
    seqs
}

/// JSON texts that a careless comparison or hash takes for one another.
pub fn confusable(thorough: bool) -> Vec<String> {
    let mut v = strs(&[
        "[]", "[[]]", "[[],[]]", "[[[]]]", "{}", "[{}]", "{\"a\":{}}", "\"\"", "\"1\"", "1", "1.0", "[1]", "[1,2]", "[[1],2]", "[[1,2]]", "true", "\"true\"", "null", "\"null\"",
        "0", "-0.0", "0.0", "18446744073709551615", "-1", "9223372036854775807", "9223372036854775808", "9007199254740993", "9007199254740992.0",
        "{\"a\":1}", "{\"a\":1,\"b\":2}", "{\"a\":{\"b\":2}}", "[\"ab\"]", "[\"a\",\"b\"]", "\"ab\"", "{\"ab\":1}", "\"a\\u0000b\"", "false", "4294967296",
    ]);
    if thorough {
        v.extend(strs(&[
            "[[],[],[]]", "[[[]],[]]", "[[],[[]]]", "{\"\":[]}", "{\"\":null}", "[null]", "[null,null]", "[[null]]", "1e300", "5e-324", "-9223372036854775808", "-9.223372036854775808e18",
            "{\"a\":[],\"b\":[]}", "{\"a\":[{\"b\":[]}]}", "\" \"", "\"é\"", "\"e\\u0301\"", "{\"a\":[1],\"b\":2}", "{\"a\":[1,{\"b\":2}]}", "[0]", "[false]",
        ]));
    }
    v
}

// ---- C05 -------------------------------------------------------------------

pub fn c05(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let big = cfg.thorough;
    let sources = query_sources(true);
    let stages = query_stages(big);
    for s in BOTH {
        for (gi, g) in query_graphs().into_iter().enumerate() {
            for depth in 0..=(if cfg.thorough && gi == 0 { 4 } else { 3 }) {
                let (src, stg) = (sources.clone(), if depth == 4 { query_stages(false) } else { stages.clone() });
                let n = src.len() as u64 * (stg.len() as u64).pow(depth as u32);
                let (src2, stg2) = (src.clone(), stg.clone());
                let name = format!("queries/{s:?}/graph{gi}/depth{depth}");
                let nm = name.clone();
                let g2 = g.clone();
                let mut og: Option<OnGraph> = None;
                let text = move |i: u64| qtext(&nth_query(&src2, &stg2, depth, i));
                p.push(cases(
                    &name,
                    n,
                    move |i, env: &mut Env| {
                        if og.is_none() {
                            og = Some(built(s, &g2, env)?);
                        }
                        let o = og.as_ref().unwrap();
                        let q = nth_query(&src, &stg, depth, i);
                        env.count("queries compared", 1);
                        env.count("query stages", depth as u64 + 1);
                        let live = o.live.as_ref().unwrap();
                        let r = match catch(|| with_db!(&live.db, db => check_query(db, &o.t.m, &q))) {
                            Ok(r) => r,
                            Err(p) => Err(format!("{}: panic: {p}", qtext(&q))),
                        };
                        if let Err(e) = r {
                            og = None;
                            return Err(Fail::new(&format!("{nm} | {}", qtext(&q)), format!("[{nm}] {e}")));
                        }
                        Ok(())
                    },
                    text,
                ));
            }
        }
    }
    p.push(constructors(&sources, &query_stages(true)));
    p
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    V,
    E,
    P,
    C,
}
fn ty(q: &Query) -> Option<Ty> {
    Some(match q {
        Query::AllVertex | Query::RangeVertex(_) | Query::SpecificVertex(_) | Query::VertexWithPropertyPresence(_) | Query::VertexWithPropertyValue(_) => Ty::V,
        Query::AllEdge | Query::SpecificEdge(_) | Query::EdgeWithPropertyPresence(_) | Query::EdgeWithPropertyValue(_) => Ty::E,
        Query::Pipe(p) => match ty(&p.inner)? {
            Ty::V => Ty::E,
            Ty::E => Ty::V,
            _ => return None,
        },
        Query::PipeProperty(p) => match ty(&p.inner)? {
            Ty::V | Ty::E => Ty::P,
            _ => return None,
        },
        Query::PipeWithPropertyPresence(p) => match ty(&p.inner)? {
            t @ (Ty::V | Ty::E) => t,
            _ => return None,
        },
        Query::PipeWithPropertyValue(p) => match ty(&p.inner)? {
            t @ (Ty::V | Ty::E) => t,
            _ => return None,
        },
        Query::Include(p) => ty(&p.inner)?,
        Query::Count(p) => match ty(&p.inner)? {
            Ty::C => return None,
            _ => Ty::C,
        },
    })
}

/// The checked constructors accept exactly the compositions that make sense,
/// and build what was asked.
fn constructors(sources: &[Query], stages: &[Query]) -> Box<dyn Part> {
    let (src, stg) = (sources.to_vec(), stages.to_vec());
    let (src2, stg2) = (src.clone(), stg.clone());
    let n = (src.len() * stg.len() * stg.len()) as u64;
    cases(
        "constructors",
        n,
        move |i, env: &mut Env| {
            let inner = nth_query(&src, &stg, 2, i);
            let b = || Box::new(inner.clone());
            let name = ident("p");
            let val = j("1");
            let t = ty(&inner);
            let ve = matches!(t, Some(Ty::V | Ty::E));
            let countable = matches!(t, Some(Ty::V | Ty::E | Ty::P));
            env.count("constructor calls compared", 9);
            let wrong = |what: &str| Fail::new(&format!("constructors | {what} {}", qtext(&inner)), format!("[constructors] {what} over {}", qtext(&inner)));
            // An inner query that is itself ill-typed cannot come out of a
            // constructor; what they say about one is open.
            if t.is_none() {
                return Ok(());
            }
            let mut made: Vec<(&str, Option<Query>, Option<Query>)> = vec![];
            for (out, dir) in [(true, indradb::EdgeDirection::Outbound), (false, indradb::EdgeDirection::Inbound)] {
                made.push(("PipeQuery::new", indradb::PipeQuery::new(b(), dir).ok().map(Into::into), Some(q_pipe(inner.clone(), out, None, M))));
                made.push((
                    "PipeQuery::new.limit.t",
                    indradb::PipeQuery::new(b(), dir).ok().map(|x| x.limit(7).t(ident("tt")).into()),
                    Some(q_pipe(inner.clone(), out, Some("tt"), 7)),
                ));
            }
            for ex in [true, false] {
                made.push(("PipeWithPropertyPresenceQuery::new", indradb::PipeWithPropertyPresenceQuery::new(b(), name, ex).ok().map(Into::into), Some(q_has(inner.clone(), "p", ex))));
                made.push(("PipeWithPropertyValueQuery::new", indradb::PipeWithPropertyValueQuery::new(b(), name, val.clone(), ex).ok().map(Into::into), Some(q_eq(inner.clone(), "p", &val, ex))));
            }
            made.push(("PipePropertyQuery::new", indradb::PipePropertyQuery::new(b()).ok().map(Into::into), Some(q_props(inner.clone(), None))));
            made.push(("PipePropertyQuery::new.name", indradb::PipePropertyQuery::new(b()).ok().map(|x| x.name(name).into()), Some(q_props(inner.clone(), Some("p")))));
            for (what, got, want) in made {
                let want = if ve { want } else { None };
                if got != want {
                    return Err(wrong(&format!("{what} gave {}", got.map_or("a refusal".into(), |q| qtext(&q)))));
                }
            }
            let got: Option<Query> = indradb::CountQuery::new(b()).ok().map(Into::into);
            let want = if countable { Some(q_count(inner.clone())) } else { None };
            if got != want {
                return Err(wrong(&format!("CountQuery::new gave {}", got.map_or("a refusal".into(), |q| qtext(&q)))));
            }
            if Into::<Query>::into(indradb::IncludeQuery::new(b())) != q_incl(inner.clone()) {
                return Err(wrong("IncludeQuery::new"));
            }
            // The chaining forms.
            if let Query::Pipe(pq) = &inner {
                let x = || pq.clone();
                let forms: Vec<(&str, Option<Query>, Query)> = vec![
                    ("outbound", x().outbound().ok().map(Into::into), q_pipe(inner.clone(), true, None, M)),
                    ("inbound", x().inbound().ok().map(Into::into), q_pipe(inner.clone(), false, None, M)),
                    ("with_property", x().with_property(name).ok().map(Into::into), q_has(inner.clone(), "p", true)),
                    ("without_property", x().without_property(name).ok().map(Into::into), q_has(inner.clone(), "p", false)),
                    ("with_property_equal_to", x().with_property_equal_to(name, val.clone()).ok().map(Into::into), q_eq(inner.clone(), "p", &val, true)),
                    ("with_property_not_equal_to", x().with_property_not_equal_to(name, val.clone()).ok().map(Into::into), q_eq(inner.clone(), "p", &val, false)),
                    ("properties", x().properties().ok().map(Into::into), q_props(inner.clone(), None)),
                    ("include", Some(x().include().into()), q_incl(inner.clone())),
                    ("count", x().count().ok().map(Into::into), q_count(inner.clone())),
                ];
                for (what, got, want) in forms {
                    if got != Some(want) {
                        return Err(wrong(&format!(".{what}() gave {}", got.map_or("a refusal".into(), |q| qtext(&q)))));
                    }
                }
            }
            Ok(())
        },
        move |i| qtext(&nth_query(&src2, &stg2, 2, i)),
    )
}

// ---- C06 -------------------------------------------------------------------

pub fn c06(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let ids: Vec<u128> = if cfg.thorough {
        vec![NIL, 1, 0xff, 0x100, CARRY - 1, CARRY, CARRY + 1, 0x7f << 120 | ((1 << 120) - 1), 0x80 << 120, MAXID - 1, MAXID]
    } else {
        vec![NIL, 0xff, 0x100, CARRY, CARRY + 1, 0x80 << 120, MAXID - 1, MAXID]
    };
    let types: [[&str; 3]; 3] = [["a", "a", "a"], ["a", "ab", "a"], ["", "a", "ab"]];
    for s in BOTH {
        let n = (1u64 << ids.len()) * 3;
        let ids2 = ids.clone();
        let ids3 = ids.clone();
        let mut live: Option<Live> = None;
        let mut used = 0;
        let name = format!("paging/{s:?}");
        let nm = name.clone();
        let text = move |i: u64| {
            let set: Vec<String> = ids3.iter().enumerate().filter(|(k, _)| (i / 3) >> k & 1 == 1).map(|(_, x)| sid(id(*x))).collect();
            format!("ids {{{}}} types {:?}", set.join(","), types[(i % 3) as usize])
        };
        p.push(cases(
            &name,
            n,
            move |i, env: &mut Env| {
                let tys = types[(i % 3) as usize];
                let set: Vec<u128> = ids2.iter().enumerate().filter(|(k, _)| (i / 3) >> k & 1 == 1).map(|(_, x)| *x).collect();
                if live.is_none() || used >= 500 {
                    live = Some(Live::fresh(s, env).map_err(|e| Fail::new("open", e))?);
                    used = 0;
                }
                used += 1;
                let l = live.as_mut().unwrap();
                let mut t = Track::default();
                let r = match catch(|| page(l, &mut t, &set, &tys, &ids2, env)) {
                    Ok(r) => r,
                    Err(p) => Err(format!("panic: {p}")),
                };
                let r = r.and_then(|_| step(l, &mut t, &Op::Delete(Query::AllVertex)));
                if let Err(e) = r {
                    live = None;
                    let what = format!("[{nm}] vertices {:?} types {tys:?}: {e}", set.iter().map(|x| sid(id(*x))).collect::<Vec<_>>());
                    return Err(Fail::new(&what.clone(), what));
                }
                Ok(())
            },
            text,
        ));
    }
    p
}

fn page(live: &mut Live, t: &mut Track, set: &[u128], tys: &[&str; 3], ids: &[u128], env: &mut Env) -> Result<(), String> {
    for (k, i) in set.iter().rev().enumerate() {
        step(live, t, &cv(*i, tys[k % 3]))?;
    }
    let mut starts: Vec<Option<Uuid>> = vec![None];
    for i in ids {
        starts.push(Some(id(*i)));
        starts.push(Some(id(i.wrapping_add(1))));
        starts.push(Some(id(i.wrapping_sub(1))));
    }
    starts.sort();
    starts.dedup();
    let n = set.len() as u32;
    let mut bat = vec![];
    for st in &starts {
        for ty in [None, Some("a"), Some("ab"), Some("")] {
            for lim in [0, 1, 2, n.max(1) - 1, n, n + 1, M] {
                bat.push(q_range(*st, ty, lim));
            }
        }
    }
    env.count("range queries compared", live.check(&t.m, &bat)?);
    // Walking page by page.
    for ty in [None, Some("a"), Some("ab")] {
        for size in [1u32, 2, 3] {
            let want: Vec<(Uuid, String)> = t.m.vertices.iter().filter(|(_, x)| ty.map_or(true, |y| y == x.as_str())).map(|(i, x)| (*i, x.clone())).collect();
            let mut got = vec![];
            let mut start: Option<Uuid> = None;
            for _ in 0..set.len() + 2 {
                env.count("pages walked", 1);
                match live.get(&q_range(start, ty, size)) {
                    Ans::Out(o) => match o.into_iter().next() {
                        Some(MOut::V(vs)) => {
                            if vs.is_empty() {
                                break;
                            }
                            let last = vs.last().unwrap().0;
                            got.extend(vs);
                            match indradb::util::next_uuid(last) {
                                Ok(nx) => start = Some(nx),
                                Err(_) if last == id(MAXID) => break,
                                Err(e) => return Err(format!("no successor for {last}: {e}")),
                            }
                        }
                        o => return Err(format!("page gave {o:?}")),
                    },
                    a => return Err(format!("page gave {}", ans_text(&a))),
                }
            }
            if got != want {
                return Err(format!("walking by {size} of type {ty:?} gave {}, expected {}", mout_text(&MOut::V(got)), mout_text(&MOut::V(want))));
            }
        }
    }
    Ok(())
}

// ---- C07 -------------------------------------------------------------------

fn populated() -> Vec<(Vec<Op>, Universe)> {
    let g = query_graphs();
    let u1 = Universe::new(&[NIL, 7, MAXID], &["x", "y"], &["t", "u"], &["p", "q", "pp", "new"], &["1", "2", "9"]);
    // Everything has properties, names are prefixes of one another.
    let mut g4 = vec![cv(CARRY, "x"), cv(CARRY + 1, "y"), ce(CARRY, "t", CARRY + 1), ce(CARRY + 1, "t", CARRY), ce(CARRY, "t", CARRY), index("p")];
    for n in ["", "p", "pp"] {
        g4.push(Op::Set(Query::AllVertex, n.into(), j("1")));
        g4.push(Op::Set(Query::AllEdge, n.into(), j("1")));
    }
    let u4 = Universe::new(&[CARRY, CARRY + 1], &["x", "y"], &["t"], &["", "p", "pp", "new"], &["1", "9"]);
    vec![(g[0].clone(), u1), (g4, u4)]
}

fn selectors(gi: usize, big: bool) -> (Vec<Query>, Vec<Query>) {
    let mut src = query_sources(true);
    if gi == 1 {
        src.extend([q_v(id(CARRY)), q_v(id(CARRY + 1)), q_e(&key(CARRY, "t", CARRY + 1))]);
        src.extend([q_range(Some(id(CARRY + 1)), None, M)]);
    }
    let mut st = query_stages(big);
    st.push(q_props(Query::AllVertex, Some("")));
    (src, st)
}

pub fn c07(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    for s in BOTH {
        for (gi, (g, u)) in populated().into_iter().enumerate() {
            for depth in 0..=(if cfg.thorough { 3 } else { 2 }) {
                let (src, stg) = selectors(gi, cfg.thorough && depth < 3);
                let nq = src.len() as u64 * (stg.len() as u64).pow(depth as u32);
                let kinds = 3u64;
                let name = format!("selectors/{s:?}/graph{gi}/depth{depth}");
                let nm = name.clone();
                let (src2, stg2) = (src.clone(), stg.clone());
                let (g, u) = (g.clone(), u.clone());
                let make = move |src: &[Query], stg: &[Query], i: u64| -> Op {
                    let q = nth_query(src, stg, depth, i / kinds);
                    match i % kinds {
                        0 => Op::Delete(q),
                        1 => Op::Set(q, "p".into(), j("9")),
                        _ => Op::Set(q, "new".into(), j("9")),
                    }
                };
                let mk = make;
                let bat = battery(&u, Depth::Full);
                let mut sess: Option<(Live, u64)> = None;
                p.push(cases(
                    &name,
                    nq * kinds,
                    move |i, env: &mut Env| {
                        let op = make(&src, &stg, i);
                        let fail = |e: String| Fail::new(&format!("{nm} | {}", optext(&op)), format!("[{nm}] {} after {}: {e}", optext(&op), optexts(&g)));
                        let fresh = s == Store::Mem || sess.as_ref().map_or(true, |x| x.1 > 300);
                        if fresh {
                            sess = None;
                            sess = Some((Live::fresh(s, env).map_err(fail)?, 0));
                        }
                        let x = sess.as_mut().unwrap();
                        x.1 += 1;
                        let strip = format!("{}-", x.1);
                        let r = match catch(|| frame(&mut x.0, &g, &op, &bat, &strip, s, env)) {
                            Ok(r) => r,
                            Err(p) => Err(format!("panic: {p}")),
                        };
                        if let Err(e) = r {
                            // Alone on a fresh store?
                            sess = None;
                            let mut l = Live::fresh(s, env).map_err(fail)?;
                            let alone = match catch(|| frame(&mut l, &g, &op, &bat, "", s, env)) {
                                Ok(r) => r,
                                Err(p) => Err(format!("panic: {p}")),
                            };
                            return Err(fail(match alone {
                                Err(e) => e,
                                Ok(()) => format!("{e} (on a store used for earlier cases)"),
                            }));
                        }
                        Ok(())
                    },
                    move |i| optext(&mk(&src2, &stg2, i)),
                ));
            }
        }
    }
    p
}

fn frame(live: &mut Live, g: &[Op], op: &Op, bat: &[Query], strip: &str, s: Store, env: &mut Env) -> Result<(), String> {
    // Property names are fresh for each case on a shared store.
    let f = |n: &str| if s == Store::Mem { n.to_string() } else { format!("{strip}{n}") };
    let mut t = Track::default();
    for o in g {
        step(live, &mut t, &rename_op(o, &f))?;
    }
    let op = rename_op(op, &f);
    let rq: Vec<Query> = if s == Store::Mem { bat.to_vec() } else { bat.iter().map(|q| rename_query(q, &f)).collect() };
    let q = match &op {
        Op::Delete(q) | Op::Set(q, _, _) => q.clone(),
        _ => unreachable!(),
    };
    env.count("selectors applied", 1);
    if cuts(&q) {
        let cands: Vec<Model> = match choices(&t.m, &q, usize::MAX).ok_or("harness: too many choices")? {
            Ok(sels) => {
                let mut c = vec![];
                for sel in sels {
                    let mut m = t.m.clone();
                    let r = match &op {
                        Op::Delete(_) => m.delete_selected(&sel),
                        Op::Set(_, n, v) => m.set_selected(&sel, n, &cj(v)),
                        _ => unreachable!(),
                    };
                    if r.is_ok() {
                        c.push(m);
                    }
                }
                c
            }
            Err(_) => vec![],
        };
        let ans = with_db!(&live.db, db => apply(db, &op));
        match (&ans, cands.is_empty()) {
            (Ans::Ok, false) => {}
            (Ans::Err(_), true) => {
                env.count("queries compared", live.check(&t.m, &rq)?);
                return reset_quiet(live, s);
            }
            _ => return Err(format!("answered {}", ans_text(&ans))),
        }
        let mut first = None;
        let mut ok = false;
        for m in &cands {
            match live.check(m, &rq) {
                Ok(n) => {
                    env.count("queries compared", n);
                    ok = true;
                    break;
                }
                Err(e) => {
                    first.get_or_insert(e);
                }
            }
        }
        if !ok {
            return Err(format!("the state fits none of the {} possible choices, e.g. {}", cands.len(), first.unwrap()));
        }
    } else {
        step(live, &mut t, &op)?;
        env.count("queries compared", live.check(&t.m, &rq)?);
    }
    env.state(model_hash(&t.m, strip));
    reset_quiet(live, s)
}

fn reset_quiet(live: &mut Live, s: Store) -> Result<(), String> {
    if s == Store::Rocks {
        for q in [Query::AllEdge, Query::AllVertex] {
            let a = with_db!(&live.db, db => apply(db, &Op::Delete(q)));
            if a != Ans::Ok {
                return Err(format!("deleting everything answered {}", ans_text(&a)));
            }
        }
        let empty = Model::default();
        live.check(&empty, &[Query::AllVertex, Query::AllEdge]).map_err(|e| format!("after deleting everything: {e}"))?;
    }
    Ok(())
}

// ---- C09 -------------------------------------------------------------------

pub fn c09(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let items: Vec<BulkInsertItem> = vec![
        bv(1, "x"), bv(1, "y"), bv(2, "x"), be(1, "t", 2), be(1, "t", 1),
        bvp(1, "p", "1"), bvp(1, "p", "2"), bvp(2, "p", "1"), bep(1, "t", 2, "p", "1"), bep(1, "t", 2, "p", "2"), bvp(1, "q", "1"),
    ];
    let full = vec![cv(1, "x"), cv(2, "x"), ce(1, "t", 2)];
    let mut full_props = full.clone();
    full_props.extend([sv(1, "p", "2"), se_((1, "t", 2), "p", "2")]);
    let states: Vec<(&str, Vec<Op>)> = vec![("empty", vec![]), ("vertices", full[..2].to_vec()), ("graph", full.clone()), ("props", full_props)];
    let u = Universe::new(&[1, 2], &["x", "y"], &["t"], &["p", "q"], &["1", "2"]);
    let maxlen = if cfg.thorough { 4 } else { 3 };
    for s in BOTH {
        for (sn_, st) in &states {
            for idx in 0..3 {
                let mut seqs = vec![];
                for len in 1..=maxlen {
                    let n = items.len() as u64;
                    for k in 0..n.pow(len as u32) {
                        let mut k2 = k;
                        let list: Vec<BulkInsertItem> = (0..len)
                            .map(|_| {
                                let i = (k2 % n) as usize;
                                k2 /= n;
                                items[i].clone()
                            })
                            .collect();
                        // In how many batches, cut where. (Quick: one batch, or
                        // one by one, or the first apart.)
                        let cutsets: Vec<u32> = if cfg.thorough || len < 3 { (0..1 << (len - 1)).collect() } else { vec![0, 1] };
                        for cut in cutsets {
                            let mut ops = st.clone();
                            if idx == 0 {
                                ops.insert(0, index("p"));
                            }
                            let mut batch = vec![];
                            for (x, it) in list.iter().enumerate() {
                                batch.push(it.clone());
                                if x + 1 == list.len() || cut >> x & 1 == 1 {
                                    ops.push(Op::Bulk(std::mem::take(&mut batch)));
                                }
                            }
                            if idx == 1 {
                                ops.push(index("p"));
                            }
                            seqs.push(ops);
                        }
                    }
                }
                let mut sc = Scope::new(&format!("bulk-{sn_}-index{idx}"), s, vec![], u.clone());
                sc.end_only = true;
                sc.observe = Depth::Core;
                p.push(Listed::new(sc, seqs));
            }
        }
        // Batches mixed with the single operations, deeper.
        let ops = vec![
            index("p"), cv(1, "x"), cv(2, "x"), ce(1, "t", 2), sv(1, "p", "1"), dv(1), dv(2), de(1, "t", 2), dvp(1, None),
            Op::Bulk(vec![bv(1, "y"), bvp(1, "p", "2")]),
            Op::Bulk(vec![bv(1, "x"), be(1, "t", 2), bep(1, "t", 2, "p", "1")]),
            Op::Bulk(vec![be(1, "t", 2), bv(2, "x"), bv(1, "x")]),
            Op::Bulk(vec![bvp(2, "p", "1"), bv(2, "x"), bvp(2, "p", "2")]),
            Op::Bulk(vec![bep(1, "t", 2, "p", "2"), bep(1, "t", 2, "p", "1")]),
        ];
        let sc = Scope::new("bulk-history", s, ops, u.clone());
        p.push(Tree::new(sc.clone(), if cfg.thorough { 4 } else { 3 }));
        p.push(Graph::new(sc, if cfg.thorough { 7 } else { 4 }, if cfg.thorough { 4 } else { 2 }));
        // Sizes.
        let sizes: Vec<usize> = if cfg.thorough { vec![0, 1, 2, 99, 100, 101, 127, 128, 255, 256, 1000, 1001, 20000] } else { vec![0, 1, 2, 100, 101, 256, 1001] };
        let seqs: Vec<Vec<Op>> = sizes
            .iter()
            .map(|n| {
                let mut items = vec![];
                for i in 0..*n as u128 {
                    items.push(bv(i, "x"));
                    if i > 0 {
                        items.push(be(i - 1, "t", i));
                    }
                    items.push(bvp(i, "p", &format!("{}", i % 3)));
                }
                vec![index("p"), Op::Bulk(items)]
            })
            .collect();
        let mut sc = Scope::new("bulk-sizes", s, vec![], Universe::new(&[], &["x"], &[], &["p"], &["0", "1", "2"]));
        sc.observe = Depth::Core;
        sc.end_only = true;
        sc.fresh = true;
        p.push(Listed::new(sc, seqs));
        // Every two items far apart in a long list of others of all kinds.
        let lens: &[usize] = if cfg.thorough { &[17, 64, 65, 100, 101, 128, 129, 256, 257, 512, 1000, 1001, 4097] } else { &[17, 101, 128, 1001] };
        let others: Vec<BulkInsertItem> = (0..lens[lens.len() - 1] as u128)
            .map(|k| match k % 4 {
                0 => bv(100 + k / 4, "z"),
                1 => be(100 + k / 4, "t", 100 + k / 8),
                2 => bvp(100 + k / 4, "q", "1"),
                _ => bep(100 + k / 4, "t", 100 + k / 8, "q", "1"),
            })
            .collect();
        let mut seqs = vec![];
        for a in &items {
            for b in &items {
                for n in lens {
                    for shape in 0..4 {
                        let (before, between) = match shape {
                            0 => (0, n - 2),
                            1 => (n - 2, 0),
                            2 => (0, 0),
                            _ => (n / 2, n / 4),
                        };
                        let mut list = others[..before].to_vec();
                        list.push(a.clone());
                        list.extend_from_slice(&others[before..before + between]);
                        list.push(b.clone());
                        list.extend_from_slice(&others[before + between..n - 2]);
                        let mut ops = if shape % 2 == 0 { full.clone() } else { vec![cv(1, "x")] };
                        ops.insert(0, index("p"));
                        ops.push(Op::Bulk(list));
                        seqs.push(ops);
                    }
                }
            }
        }
        let mut sc = Scope::new("bulk-apart", s, vec![], u.clone());
        sc.observe = Depth::Core;
        sc.end_only = true;
        p.push(Listed::new(sc, seqs));
    }
    p
}
