//! Graphs with many elements of one kind, of every size around the powers of
//! two and the round numbers: what works for three may not for a thousand.

use indradb::{BulkInsertItem, Query};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{catch, Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use uuid::Uuid;

type Parts = Vec<Box<dyn Part>>;
const M: u32 = u32::MAX;
const BOTH: [Store; 2] = [Store::Mem, Store::Rocks];

pub fn sizes(thorough: bool) -> Vec<usize> {
    if cfg!(debug_assertions) && !thorough {
        vec![17, 64, 256, 1000]
    } else if thorough {
        vec![17, 33, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025, 2000, 2049, 4096, 4097, 5001, 8193, 10000]
    } else {
        vec![17, 64, 100, 128, 256, 512, 1000, 1024, 4097]
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    /// A vertex with n edges to n others and n edges from them.
    Star,
    /// Two vertices with n edges of n types between them, and n more back.
    Parallel,
    /// Each vertex with an edge to the next, in a ring.
    Ring,
    /// A vertex and an edge with n properties each.
    Names,
}
use Shape::*;

/// The ids are spread, so that their order is not that of creation.
fn nth(i: usize) -> Uuid {
    id((i as u128 * 0x9e37_79b9) << 64 | (i as u128 % 7))
}
fn kind(i: usize) -> &'static str {
    if i % 3 == 0 { "x" } else { "y" }
}

/// The vertex in the middle of a star.
pub fn hub() -> Uuid {
    nth(0)
}

fn edges(s: Shape, n: usize) -> Vec<EKey> {
    let mut e = vec![];
    match s {
        Star => {
            for i in 1..=n {
                e.push((nth(0), "t".to_string(), nth(i)));
                e.push((nth(i), "u".to_string(), nth(0)));
            }
        }
        Parallel => {
            for i in 0..n {
                e.push((nth(0), format!("t{i}"), nth(1)));
                e.push((nth(1), format!("u{i}"), nth(0)));
            }
            e.push((nth(0), "t".into(), nth(1)));
        }
        Ring => {
            for i in 0..n {
                e.push((nth(i), "t".into(), nth((i + 1) % n)));
            }
        }
        Names => e.push((nth(0), "t".into(), nth(1))),
    }
    e
}

fn vertices(s: Shape, n: usize) -> Vec<(Uuid, &'static str)> {
    let k = match s {
        Star => n + 1,
        Parallel | Names => 3,
        Ring => n,
    };
    (0..k).map(|i| (nth(i), kind(i))).collect()
}

pub fn bare(s: Shape, n: usize, singly: bool) -> Vec<Op> {
    let (v, e) = (vertices(s, n), edges(s, n));
    if singly {
        let mut ops: Vec<Op> = v.iter().map(|(i, t)| Op::CreateVertex(*i, t.to_string())).collect();
        ops.extend(e.into_iter().map(|(a, t, b)| Op::CreateEdge(a, t, b)));
        return ops;
    }
    let mut items: Vec<BulkInsertItem> = v.iter().map(|(i, t)| BulkInsertItem::Vertex(vertex(*i, t))).collect();
    items.extend(e.iter().map(|e| BulkInsertItem::Edge(edge_of(e))));
    vec![Op::Bulk(items)]
}

pub fn dressed(s: Shape, n: usize, singly: bool) -> Vec<Op> {
    let mut items = vec![];
    for (k, (i, _)) in vertices(s, n).iter().enumerate() {
        items.push(BulkInsertItem::VertexProperty(*i, ident("p"), j(&format!("{}", k % 2))));
        items.push(BulkInsertItem::VertexProperty(*i, ident("q"), j("\"same\"")));
    }
    for (k, e) in edges(s, n).iter().enumerate() {
        items.push(BulkInsertItem::EdgeProperty(edge_of(e), ident("p"), j(&format!("{}", k % 2))));
        items.push(BulkInsertItem::EdgeProperty(edge_of(e), ident("q"), j("\"same\"")));
    }
    if s == Names {
        for i in 0..n {
            items.push(BulkInsertItem::VertexProperty(nth(0), ident(&format!("n{i}")), j(&format!("{i}"))));
            items.push(BulkInsertItem::EdgeProperty(edge_of(&(nth(0), "t".into(), nth(1))), ident(&format!("n{i}")), j(&format!("{i}"))));
        }
    }
    if !singly {
        return vec![Op::Bulk(items)];
    }
    items
        .into_iter()
        .map(|i| match i {
            BulkInsertItem::VertexProperty(i, n, v) => Op::Set(q_v(i), n.to_string(), v),
            BulkInsertItem::EdgeProperty(e, n, v) => Op::Set(q_e(&ek(&e)), n.to_string(), v),
            _ => unreachable!(),
        })
        .collect()
}

fn uni(s: Shape, n: usize) -> Universe {
    let t = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    Universe {
        ids: [0, 1, n / 2, n - 1, n].iter().map(|i| nth(*i)).collect(),
        vtypes: t(&["x", "y"]),
        etypes: if s == Parallel { t(&["t", "t0", "u1"]) } else { t(&["t", "u"]) },
        names: t(&["p", "q"]),
        vals: ["0", "1", "\"same\"", "9"].iter().map(|v| j(v)).collect(),
    }
}

/// One case: what is done, and when names are indexed (before anything, before
/// the deed, after it).
pub struct Case {
    shape: Shape,
    n: usize,
    singly: bool,
    indexed: usize,
    what: String,
    deed: Vec<Op>,
}
impl Case {
    fn text(&self) -> String {
        format!("{:?} of {}, made {}, indexed {}: {}", self.shape, self.n, if self.singly { "singly" } else { "in bulk" }, ["first", "before", "after"][self.indexed], self.what)
    }
    fn ops(&self) -> (Vec<Op>, usize) {
        let ix = [index("p"), index("q")];
        let mut o = vec![];
        if self.indexed == 0 {
            o.extend(ix.clone());
        }
        o.extend(bare(self.shape, self.n, self.singly));
        o.extend(dressed(self.shape, self.n, self.singly));
        if self.indexed == 1 {
            o.extend(ix.clone());
        }
        let first = o.len() - 1;
        o.extend(self.deed.iter().cloned());
        if self.indexed == 2 {
            o.extend(ix);
        }
        // All of it again, without its properties.
        o.extend(bare(self.shape, self.n, false));
        (o, first)
    }
}

fn cut(s: String) -> String {
    if s.len() > 1500 {
        format!("{}...", s.chars().take(1500).collect::<String>())
    } else {
        s
    }
}

pub fn part(name: &str, s: Store, cs: Vec<Case>) -> Box<dyn Part> {
    let name = format!("{name}/{s:?}");
    let nm = name.clone();
    let texts: Vec<String> = cs.iter().map(|c| c.text()).collect();
    cases(
        &name,
        cs.len() as u64,
        move |i, env: &mut Env| {
            let c = &cs[i as usize];
            let (ops, first) = c.ops();
            let bat = battery(&uni(c.shape, c.n), Depth::Full);
            let fail = |e: String| {
                let what = format!("[{nm}] {}: {}", c.text(), cut(e));
                Fail::new(&format!("{nm} | {}", c.text()), what)
            };
            let r = catch(|| -> Result<(), String> {
                let mut live = Live::fresh(s, env)?;
                let mut t = Track::default();
                for (k, o) in ops.iter().enumerate() {
                    step(&mut live, &mut t, o).map_err(cut)?;
                    env.count("operations replayed on the implementation", 1);
                    if k >= first {
                        let n = live.check(&t.m, &bat)?;
                        env.count("queries compared", n);
                        env.count("states observed", 1);
                    }
                }
                Ok(())
            });
            match r {
                Ok(r) => r.map_err(fail),
                Err(p) => Err(fail(format!("panic: {p}"))),
            }
        },
        move |i| texts[i as usize].clone(),
    )
}

type Deed = (&'static str, fn(Shape, usize) -> Vec<Op>);

fn ids_of(s: Shape, n: usize) -> Vec<Uuid> {
    vertices(s, n).iter().map(|v| v.0).collect()
}

const REMOVALS: [Deed; 8] = [
    ("the first vertex deleted", |_, _| vec![Op::Delete(q_v(nth(0)))]),
    ("the second vertex deleted", |_, _| vec![Op::Delete(q_v(nth(1)))]),
    ("every vertex but the first deleted by id", |s, n| vec![Op::Delete(q_vs(&ids_of(s, n)[1..]))]),
    ("all vertices deleted", |_, _| vec![Op::Delete(Query::AllVertex)]),
    ("the vertices of one type deleted", |_, _| vec![Op::Delete(q_range(None, Some("y"), M))]),
    ("half of the vertices deleted", |_, n| vec![Op::Delete(q_range(None, None, n as u32 / 2))]),
    ("what the first vertex leads to deleted", |_, _| vec![Op::Delete(q_pipe(q_pipe(q_v(nth(0)), true, None, M), false, None, M))]),
    ("the vertices deleted one by one", |s, n| if n <= 300 { ids_of(s, n).into_iter().step_by(n / 20 + 1).map(|i| Op::Delete(q_v(i))).collect() } else { vec![] }),
];

const BY_QUERY: [Deed; 14] = [
    ("all edges deleted", |_, _| vec![Op::Delete(Query::AllEdge)]),
    ("the edges out of the first vertex deleted", |_, _| vec![Op::Delete(q_pipe(q_v(nth(0)), true, None, M))]),
    ("the edges into the first vertex deleted", |_, _| vec![Op::Delete(q_pipe(q_v(nth(0)), false, None, M))]),
    ("every edge deleted by key", |s, n| vec![Op::Delete(q_es(&edges(s, n)))]),
    ("edges with a value deleted", |_, _| vec![index("p"), Op::Delete(q_eeq("p", &j("1")))]),
    ("vertices with a value deleted", |_, _| vec![index("p"), Op::Delete(q_veq("p", &j("1")))]),
    ("a property of all vertices deleted", |_, _| vec![Op::Delete(q_props(Query::AllVertex, Some("p")))]),
    ("all properties of all vertices deleted", |_, _| vec![Op::Delete(q_props(Query::AllVertex, None))]),
    ("all properties of all edges deleted", |_, _| vec![Op::Delete(q_props(Query::AllEdge, None))]),
    ("a property of edges out of the first vertex deleted", |_, _| vec![Op::Delete(q_props(q_pipe(q_v(nth(0)), true, None, M), Some("q")))]),
    ("a property of all vertices set", |_, _| vec![Op::Set(Query::AllVertex, "p".into(), j("9"))]),
    ("a property of all edges set", |_, _| vec![Op::Set(Query::AllEdge, "p".into(), j("9"))]),
    ("a property of what the first vertex leads to set", |_, _| vec![Op::Set(q_pipe(q_pipe(q_v(nth(0)), true, None, M), false, None, M), "q".into(), j("9"))]),
    ("a property of vertices with a value set to another", |_, _| vec![index("q"), Op::Set(q_veq("q", &j("\"same\"")), "q".into(), j("9"))]),
];

const REWRITES: [Deed; 4] = [
    ("nothing", |_, _| vec![]),
    ("all values set again, the other way round", |s, n| {
        let mut o: Vec<BulkInsertItem> = ids_of(s, n).iter().enumerate().map(|(k, i)| BulkInsertItem::VertexProperty(*i, ident("p"), j(&format!("{}", (k + 1) % 2)))).collect();
        o.extend(edges(s, n).iter().enumerate().map(|(k, e)| BulkInsertItem::EdgeProperty(edge_of(e), ident("p"), j(&format!("{}", (k + 1) % 2)))));
        vec![Op::Bulk(o)]
    }),
    ("all values made one", |_, _| vec![Op::Set(Query::AllVertex, "p".into(), j("0")), Op::Set(Query::AllEdge, "p".into(), j("0"))]),
    ("values deleted and set", |_, _| {
        vec![Op::Delete(q_props(Query::AllVertex, Some("p"))), Op::Delete(q_props(Query::AllEdge, Some("p"))), Op::Set(Query::AllVertex, "p".into(), j("1")), Op::Set(Query::AllEdge, "p".into(), j("1"))]
    }),
];

fn parts(name: &str, cfg: &Cfg, shapes: &[Shape], deeds: &[Deed], whens: &[usize]) -> Parts {
    let mut p: Parts = vec![];
    for s in BOTH {
        let mut cs = vec![];
        let sizes = sizes(cfg.thorough);
        for (a, shape) in shapes.iter().enumerate() {
            for (b, n) in sizes.iter().enumerate() {
                for (c, (what, deed)) in deeds.iter().enumerate() {
                    for (d, when) in whens.iter().enumerate() {
                        // Quick: the larger, the fewer of the moments.
                        if !cfg.thorough && whens.len() > 1 && *n > 300 && d != (a + b + c) % whens.len() {
                            continue;
                        }
                        // Ever the same vertex, found by each of its edges: that takes
                        // time that grows with the square.
                        if *shape == Parallel && *n > 300 && what.contains("what the first vertex leads to") {
                            continue;
                        }
                        let singly = (a + b + c + d) % 2 == 0 && *n <= 1025;
                        cs.push(Case { shape: *shape, n: *n, singly, indexed: *when, what: what.to_string(), deed: deed(*shape, *n) });
                    }
                }
            }
        }
        p.push(part(name, s, cs));
    }
    p
}

pub fn cascades(cfg: &Cfg) -> Parts {
    parts("many: cascades", cfg, &[Star, Parallel, Ring], &REMOVALS, &[0, 2])
}
pub fn by_query(cfg: &Cfg) -> Parts {
    parts("many: by query", cfg, &[Star, Parallel, Ring, Names], &BY_QUERY, &[0])
}
pub fn indexes(cfg: &Cfg) -> Parts {
    parts("many: indexes", cfg, &[Star, Ring, Names], &REWRITES, &[0, 1, 2])
}
pub fn views(cfg: &Cfg) -> Parts {
    parts("many: views", cfg, &[Star, Parallel, Ring], &REWRITES[..1], &[2])
}

/// Composed queries over many elements, with limits around their number.
pub fn queries(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let thorough = cfg.thorough;
    for s in BOTH {
        for shape in [Star, Parallel, Ring, Names] {
            // (size, depth, sources, stages, where its cases begin)
            let mut blocks: Vec<(usize, usize, Vec<Query>, Vec<Query>, u64)> = vec![];
            let mut total = 0;
            for n in sizes(thorough).into_iter().filter(|n| *n <= 4097) {
                let (src, stg) = alphabet(shape, n);
                let deep = if n <= if thorough { 300 } else { 70 } { 2 } else { 1 };
                for depth in 0..=deep {
                    blocks.push((n, depth, src.clone(), stg.clone(), total));
                    total += src.len() as u64 * (stg.len() as u64).pow(depth as u32);
                }
            }
            let name = format!("many: queries/{s:?}/{shape:?}");
            let nm = name.clone();
            let blocks = std::rc::Rc::new(blocks);
            let find = {
                let blocks = blocks.clone();
                move |i: u64| -> (usize, usize, Query) {
                    let (n, depth, src, stg, first) = blocks.iter().rev().find(|b| b.4 <= i).unwrap();
                    (*n, *depth, nth_query(src, stg, *depth, i - first))
                }
            };
            let find2 = find.clone();
            let mut og: Option<(usize, OnGraph)> = None;
            p.push(cases(
                &name,
                total,
                move |i, env: &mut Env| {
                    let (n, depth, q) = find(i);
                    let what = || format!("of {n}: {}", cut(qtext(&q)));
                    if og.as_ref().map_or(true, |o| o.0 != n) {
                        let mut ops = vec![index("p"), index("q")];
                        ops.extend(bare(shape, n, false));
                        ops.extend(dressed(shape, n, false));
                        og = None;
                        og = Some((n, built(s, &ops, env).map_err(|f| Fail::new(&format!("{nm} | setup"), cut(f.what)))?));
                    }
                    let o = &og.as_ref().unwrap().1;
                    env.count("queries compared", 1);
                    env.count("query stages", depth as u64 + 1);
                    let live = o.live.as_ref().unwrap();
                    let r = catch(|| live.check(&o.t.m, std::slice::from_ref(&q))).unwrap_or_else(|p| Err(format!("panic: {p}")));
                    r.map(|_| ()).map_err(|e| {
                        og = None;
                        Fail::new(&format!("{nm} {}", what()), format!("[{nm} of {n}] {}", cut(e)))
                    })
                },
                move |i| {
                    let (n, _, q) = find2(i);
                    format!("of {n}: {}", cut(qtext(&q)))
                },
            ));
        }
    }
    p
}

fn alphabet(shape: Shape, n: usize) -> (Vec<Query>, Vec<Query>) {
    let u = n as u32;
    let all = ids_of(shape, n);
    let src = vec![
        Query::AllVertex,
        q_v(nth(0)),
        q_vs(&[&all[..], &all[..2]].concat()),
        q_range(Some(nth(1)), Some("y"), u - 1),
        q_range(None, None, M),
        q_vhas("p"),
        q_veq("q", &j("\"same\"")),
        Query::AllEdge,
        q_es(&edges(shape, n)),
        q_ehas("q"),
        q_eeq("p", &j("1")),
    ];
    let h = Query::AllVertex;
    let mut stg = vec![q_incl(h.clone()), q_count(h.clone()), q_props(h.clone(), None), q_props(h.clone(), Some("p"))];
    stg.extend([q_has(h.clone(), "p", true), q_has(h.clone(), "p", false), q_eq(h.clone(), "p", &j("1"), true), q_eq(h.clone(), "p", &j("1"), false)]);
    for out in [true, false] {
        stg.push(q_pipe(h.clone(), out, None, M));
        for l in [1, u - 1, u, u + 1] {
            stg.push(q_pipe(h.clone(), out, None, l));
        }
        for t in ["t", "u", "y"] {
            stg.push(q_pipe(h.clone(), out, Some(t), M));
            stg.push(q_pipe(h.clone(), out, Some(t), u - 1));
        }
    }
    (src, stg)
}

/// Walks over many vertices, page by page.
pub fn pages(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    for s in BOTH {
        let mut cs = vec![];
        for n in sizes(cfg.thorough) {
            for page in [1, 2, 7, 63, 64, 100, 255, 256, 257, 999, 1000, 1001, 1024, 4096, n - 1, n, n + 1, M as usize] {
                if n / page <= 300 {
                    for ty in [None, Some("x"), Some("y"), Some("z")] {
                        cs.push((n, page, ty));
                    }
                }
            }
        }
        let name = format!("many: pages/{s:?}");
        let nm = name.clone();
        let texts: Vec<String> = cs.iter().map(|(n, page, ty)| format!("{n} vertices, pages of {page}, type {ty:?}")).collect();
        let texts2 = texts.clone();
        let mut on: Option<(usize, Live, Track)> = None;
        p.push(cases(
            &name,
            cs.len() as u64,
            move |i, env: &mut Env| {
                let (n, page, ty) = cs[i as usize];
                let fail = |e: String| Fail::new(&format!("{nm} | {}", texts[i as usize]), format!("[{nm}] {}: {}", texts[i as usize], cut(e)));
                if on.as_ref().map_or(true, |o| o.0 != n) {
                    on = None;
                    let mut live = Live::fresh(s, env).map_err(fail)?;
                    let mut t = Track::default();
                    for o in bare(Ring, n, n % 2 == 0) {
                        step(&mut live, &mut t, &o).map_err(fail)?;
                    }
                    on = Some((n, live, t));
                }
                let (_, live, t) = on.as_ref().unwrap();
                let want: Vec<(Uuid, String)> = t.m.vertices.iter().filter(|(_, x)| ty.map_or(true, |y| y == x.as_str())).map(|(i, x)| (*i, x.clone())).collect();
                let mut got: Vec<(Uuid, String)> = vec![];
                let mut start = None;
                loop {
                    env.count("pages walked", 1);
                    let vs = match live.get(&q_range(start, ty, page as u32)) {
                        Ans::Out(mut o) if o.len() == 1 => match o.pop() {
                            Some(MOut::V(v)) => v,
                            o => return Err(fail(format!("page gave {o:?}"))),
                        },
                        a => return Err(fail(format!("page gave {}", ans_text(&a)))),
                    };
                    let due = (want.len() - got.len()).min(page);
                    if vs.len() != due {
                        return Err(fail(format!("a page from {start:?} has {} vertices, expected {due}", vs.len())));
                    }
                    let Some(last) = vs.last().map(|v| v.0) else { break };
                    got.extend(vs);
                    if got.len() > want.len() {
                        break;
                    }
                    start = Some(indradb::util::next_uuid(last).map_err(|e| fail(format!("no successor for {last}: {e}")))?);
                }
                if got != want {
                    let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                    return Err(fail(format!("the walk differs at vertex {k}: {:?}, expected {:?}", got.get(k), want.get(k))));
                }
                Ok(())
            },
            move |i| texts2[i as usize].clone(),
        ));
    }
    p
}

/// Short histories, over and over.
pub fn cycles(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    for s in BOTH {
        let sc = general(s, 1, 2);
        let k = sc.alphabet.len();
        let times: u64 = if cfg.thorough { 3000 } else { 300 };
        let ops = sc.alphabet.clone();
        let bat = battery(&sc.uni, Depth::Full);
        let name = format!("over and over/{s:?}");
        let nm = name.clone();
        // Words of one or two operations, each from a graph that has all.
        let word = move |i: u64| -> Vec<usize> {
            if (i as usize) < k {
                vec![i as usize]
            } else {
                let i = i as usize - k;
                vec![i / k, i % k]
            }
        };
        let text = {
            let ops = ops.clone();
            move |i: u64| format!("{times} times ({})", word(i).iter().map(|x| optext(&ops[*x])).collect::<Vec<_>>().join("; "))
        };
        let text2 = text.clone();
        p.push(cases(
            &name,
            (k + k * k) as u64,
            move |i, env: &mut Env| {
                let fail = |e: String| Fail::new(&format!("{nm} | {}", text(i)), format!("[{nm}] {}: {}", text(i), cut(e)));
                let w = word(i);
                let r = catch(|| -> Result<(), String> {
                    let mut live = Live::fresh(s, env)?;
                    let mut t = Track::default();
                    for o in [cv(1, "x"), cv(2, "x"), ce(1, "t", 2), ce(2, "t", 1), sv(2, "p", "1")] {
                        step(&mut live, &mut t, &o)?;
                    }
                    for r in 1..=times {
                        for x in &w {
                            step(&mut live, &mut t, &ops[*x]).map_err(|e| format!("round {r}: {e}"))?;
                            env.count("operations replayed on the implementation", 1);
                        }
                        if r == times || r.is_power_of_two() || (r - 1).is_power_of_two() {
                            let n = live.check(&t.m, &bat).map_err(|e| format!("round {r}: {e}"))?;
                            env.count("queries compared", n);
                            env.count("states observed", 1);
                        }
                    }
                    Ok(())
                });
                match r {
                    Ok(r) => r.map_err(fail),
                    Err(p) => Err(fail(format!("panic: {p}"))),
                }
            },
            text2,
        ));
    }
    p
}

/// Properties with long values, indexed at each moment.
pub fn large(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    for s in BOTH {
        let mut jobs = vec![];
        for n in mc_core::values::lengths(cfg.thorough) {
            for k in 0..mc_core::values::long_pairs(n).len() {
                for when in 0..3 {
                    jobs.push((n, k, when));
                }
            }
        }
        let name = format!("long values/{s:?}");
        let nm = name.clone();
        let text = |(n, k, when): (usize, usize, usize)| format!("two values of length {n} ({}), indexed at moment {when}", mc_core::values::long_pairs(n)[k].0);
        let j2 = jobs.clone();
        p.push(cases(
            &name,
            jobs.len() as u64,
            move |i, env: &mut Env| {
                let job = jobs[i as usize];
                let (n, k, when) = job;
                let (_, a, b) = mc_core::values::long_pairs(n).swap_remove(k);
                let mut u = Universe::new(&[1, 2], &["x"], &["t"], &["p"], &["1"]);
                u.vals.extend([a.clone(), b.clone()]);
                let bat = battery(&u, Depth::Core);
                let set = |q: Query, v: &indradb::Json| Op::Set(q, "p".into(), v.clone());
                let mut ops = vec![cv(1, "x"), cv(2, "x"), ce(1, "t", 2)];
                let at = |w: usize, ops: &mut Vec<Op>| {
                    if when == w {
                        ops.push(index("p"));
                    }
                };
                at(0, &mut ops);
                ops.extend([set(Query::AllVertex, &a), set(Query::AllEdge, &a)]);
                at(1, &mut ops);
                ops.extend([set(q_v(id(1)), &b), set(q_e(&key(1, "t", 2)), &b), Op::Bulk(vec![BulkInsertItem::VertexProperty(id(2), ident("p"), b.clone())])]);
                if s == Store::Rocks {
                    ops.push(Op::Reopen);
                }
                at(2, &mut ops);
                ops.extend([set(q_veq("p", &b), &a), Op::Delete(q_props(q_v(id(1)), Some("p"))), Op::Delete(q_eeq("p", &b)), Op::Delete(q_veq("p", &a))]);
                let fail = |e: String| Fail::new(&format!("{nm} | {}", text(job)), format!("[{nm}] {}: {}", text(job), cut(e)));
                let r = catch(|| -> Result<(), String> {
                    let mut live = Live::fresh(s, env)?;
                    let mut t = Track::default();
                    for o in &ops {
                        step(&mut live, &mut t, o).map_err(cut)?;
                        env.count("operations replayed on the implementation", 1);
                        let n = live.check(&t.m, &bat)?;
                        env.count("queries compared", n);
                        env.count("states observed", 1);
                    }
                    Ok(())
                });
                match r {
                    Ok(r) => r.map_err(fail),
                    Err(p) => Err(fail(format!("panic: {p}"))),
                }
            },
            move |i| text(j2[i as usize]),
        ));
    }
    p
}
