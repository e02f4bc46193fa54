//! Values, keys and names: C10-C13.
use crate::seq::{ce, cv};
use indradb::util::{self, Component};
use indradb::{BulkInsertItem, Identifier, Json, Query, ValidationError, ValidationResult};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{Cfg, Env, Fail, Part};
use mc_core::universe::*;
use mc_core::values::*;
use mc_core::with_db;
use std::cell::{OnceCell, RefCell};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::io::Cursor;
use std::rc::Rc;
use std::str::FromStr;
use uuid::Uuid;

type Parts = Vec<Box<dyn Part>>;

fn h<T: Hash>(v: &T) -> u64 {
    let mut s = DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}

fn ord(c: Option<Ordering>) -> u8 {
    match c {
        None => 0,
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 3,
    }
}

pub fn c10(cfg: &Cfg) -> Parts {
    let mut parts: Parts = vec![];
    let vals = Rc::new(values(2, if cfg.thorough { 3 } else { 2 }));
    let n = vals.len();
    // The laws, on every pair and triple.
    let matrix: Rc<OnceCell<Vec<Vec<u8>>>> = Default::default();
    let v = vals.clone();
    let v2 = vals.clone();
    parts.push(cases(
        "laws of equality, hash and order on all pairs and triples",
        n as u64,
        move |i, env| {
            let i = i as usize;
            let m = matrix.get_or_init(|| v.iter().map(|a| v.iter().map(|b| ord(a.partial_cmp(b))).collect()).collect());
            let a = &v[i];
            for (k, b) in v.iter().enumerate() {
                let bad = |what: &str| Err(Fail::new(&format!("pair {} {}", a.0, b.0), format!("{} and {}: {what}", a.0, b.0)));
                // A second, separately built copy of the value.
                let b2 = Json::new((*b.0).clone());
                let same = i == k;
                if (a == b) != same || (*a == b2) != same || (a != b) == same {
                    return bad(if same { "the same value is not equal to itself" } else { "different values are equal" });
                }
                if same && h(a) != h(&b2) {
                    return bad("equal values hash differently");
                }
                if (m[i][k] == 2) != same {
                    return bad("the order disagrees with equality");
                }
                if m[k][i] != [0, 3, 2, 1][m[i][k] as usize] {
                    return bad("the order is not antisymmetric");
                }
                if (a < b) != (m[i][k] == 1) || (a > b) != (m[i][k] == 3) || (a <= b) != (m[i][k] == 1 || same) {
                    return bad("the comparison operators disagree");
                }
                env.count("pairs", 1);
                if m[i][k] != 1 {
                    continue;
                }
                for (l, c) in v.iter().enumerate() {
                    if m[k][l] == 1 && m[i][l] != 1 {
                        let t = format!("{} {} {}", a.0, b.0, c.0);
                        return Err(Fail::new(&format!("triple {t}"), format!("the order is not transitive on {t}")));
                    }
                }
                env.count("triples", v.len() as u64);
            }
            Ok(())
        },
        move |i| format!("all pairs and triples starting with {}", v2[i as usize].0),
    ));
    // The laws, on pairs of long values.
    let lens = mc_core::values::lengths(cfg.thorough);
    let l2 = lens.clone();
    parts.push(cases(
        "laws of equality, hash and order on pairs of long values",
        lens.len() as u64,
        move |i, env| {
            let n = lens[i as usize];
            for (what, a, b) in mc_core::values::long_pairs(n) {
                let bad = |e: &str| Err(Fail::new(&format!("long {n} {what}"), format!("two values of length {n} ({what}): {e}")));
                let a2 = Json::new((*a.0).clone());
                if a == b || b == a {
                    return bad("different values are equal");
                }
                if a != a2 || h(&a) != h(&a2) || a.partial_cmp(&a2) != Some(std::cmp::Ordering::Equal) {
                    return bad("the same value is not equal to itself");
                }
                if ord(a.partial_cmp(&b)) == 2 || ord(b.partial_cmp(&a)) != [0, 3, 2, 1][ord(a.partial_cmp(&b)) as usize] {
                    return bad("the order disagrees with equality");
                }
                env.count("pairs", 1);
            }
            Ok(())
        },
        move |i| format!("values of length {}", l2[i as usize]),
    ));
    // Lookups by value in the stores that hold all of the values at once.
    for store in [Store::Mem, Store::Rocks] {
        let v = vals.clone();
        let v2 = vals.clone();
        let live: RefCell<Option<Live>> = RefCell::new(None);
        parts.push(cases(
            &format!("lookup by every value in a {store:?} store that holds them all"),
            n as u64,
            move |i, env| {
                let mut slot = live.borrow_mut();
                if slot.is_none() {
                    let l = Live::fresh(store, env).map_err(|e| Fail::new("open", e))?;
                    let mut items = vec![];
                    for (k, x) in v.iter().enumerate() {
                        let a = id(k as u128 + 1);
                        items.push(BulkInsertItem::Vertex(vertex(a, "x")));
                        items.push(BulkInsertItem::VertexProperty(a, ident("p"), x.clone()));
                        let e = edge_of(&(a, "t".into(), a));
                        items.push(BulkInsertItem::Edge(e.clone()));
                        items.push(BulkInsertItem::EdgeProperty(e, ident("p"), x.clone()));
                    }
                    with_db!(&l.db, db => {
                        let a = apply(db, &Op::Index("p".into()));
                        if a != Ans::Ok {
                            return Err(Fail::new("setup", ans_text(&a)));
                        }
                        let a = apply(db, &Op::Bulk(items));
                        if a != Ans::Ok {
                            return Err(Fail::new("setup", ans_text(&a)));
                        }
                    });
                    *slot = Some(l);
                }
                let l = slot.as_ref().unwrap();
                let x = Json::new((*v[i as usize].0).clone());
                let want = id(i as u128 + 1);
                let others: Vec<Uuid> = (0..v.len()).map(|k| id(k as u128 + 1)).filter(|u| *u != want).collect();
                let edges = |us: &[Uuid]| us.iter().map(|u| (*u, "t".to_string(), *u)).collect::<Vec<_>>();
                let expect = [
                    (q_veq("p", &x), MOut::V(vec![(want, "x".into())])),
                    (q_eeq("p", &x), MOut::E(edges(&[want]))),
                    (q_eq(Query::AllVertex, "p", &x, true), MOut::V(vec![(want, "x".into())])),
                    (q_eq(Query::AllEdge, "p", &x, true), MOut::E(edges(&[want]))),
                    (q_eq(Query::AllVertex, "p", &x, false), MOut::V(others.iter().map(|u| (*u, "x".into())).collect())),
                    (q_eq(Query::AllEdge, "p", &x, false), MOut::E(edges(&others))),
                ];
                for (q, w) in expect {
                    env.count("queries compared", 1);
                    let got = l.get(&q);
                    let ok = matches!(&got, Ans::Out(o) if o.len() == 1 && o[0].clone().sorted() == w.clone().sorted());
                    if !ok {
                        let g = ans_text(&got);
                        return Err(Fail::new(
                            &format!("{store:?} lookup {}", x.0),
                            format!("{store:?}: {} answered {}, expected {}", qtext(&q), &g[..g.len().min(600)], &mout_text(&w)[..mout_text(&w).len().min(300)]),
                        ));
                    }
                }
                Ok(())
            },
            move |i| format!("lookup by {}", v2[i as usize].0),
        ));
        // Overwriting one value by another: found by the new one only.
        let small: Rc<Vec<Json>> = Rc::new(values(2, 2).into_iter().filter(|x| x.0.to_string().len() <= if cfg.thorough { 24 } else { 9 }).collect());
        let (s, s2) = (small.clone(), small.clone());
        let live: RefCell<Option<Live>> = RefCell::new(None);
        let k = small.len() as u64;
        parts.push(cases(
            &format!("overwriting every value by every other in the {store:?} store"),
            k * k,
            move |i, env| {
                let (a, b) = (&s[(i / k) as usize], &s[(i % k) as usize]);
                let mut slot = live.borrow_mut();
                if slot.is_none() {
                    let l = Live::fresh(store, env).map_err(|e| Fail::new("open", e))?;
                    with_db!(&l.db, db => {
                        let a = apply(db, &Op::Index("p".into()));
                        if a != Ans::Ok {
                            return Err(Fail::new("setup", ans_text(&a)));
                        }
                        apply(db, &cv(1, "x"));
                        apply(db, &cv(2, "x"));
                        apply(db, &ce(1, "t", 2));
                    });
                    *slot = Some(l);
                }
                let l = slot.as_ref().unwrap();
                let (v1, e1) = (q_v(id(1)), q_e(&(id(1), "t".into(), id(2))));
                let same = i / k == i % k;
                let r = with_db!(&l.db, db => {
                    let mut r = Ok(());
                    for x in [a, b] {
                        for q in [&v1, &e1] {
                            let got = apply(db, &Op::Set(q.clone(), "p".into(), x.clone()));
                            if !matches!(got, Ans::Ok) {
                                r = Err(format!("setting {} answered {}", x.0, ans_text(&got)));
                            }
                        }
                    }
                    r
                });
                r.map_err(|e| Fail::new(&format!("{store:?} overwrite {} {}", a.0, b.0), e))?;
                for (x, n) in [(a, same as usize), (b, 1)] {
                    for q in [q_veq("p", x), q_eeq("p", x), q_eq(v1.clone(), "p", x, true), q_eq(e1.clone(), "p", x, true)] {
                        env.count("queries compared", 1);
                        let got = l.get(&q);
                        if !matches!(&got, Ans::Out(o) if o.len() == 1 && o[0].len() == Some(n)) {
                            return Err(Fail::new(
                                &format!("{store:?} overwrite {} {}", a.0, b.0),
                                format!("{store:?}: after {} was replaced by {}, {} answered {}, expected {n} result(s)", a.0, b.0, qtext(&q), ans_text(&got)),
                            ));
                        }
                    }
                }
                for q in [q_vhas("p"), q_ehas("p")] {
                    let got = l.get(&q);
                    if !matches!(&got, Ans::Out(o) if o.len() == 1 && o[0].len() == Some(1)) {
                        return Err(Fail::new(
                            &format!("{store:?} overwrite {} {}", a.0, b.0),
                            format!("{store:?}: after {} was replaced by {}, {} answered {}", a.0, b.0, qtext(&q), ans_text(&got)),
                        ));
                    }
                }
                Ok(())
            },
            move |i| format!("{} replaced by {}", s2[(i / k) as usize].0, s2[(i % k) as usize].0),
        ));
    }
    parts
}

/// Names of every length boundary and of odd characters.
pub fn names(thorough: bool) -> Vec<String> {
    let mut n: Vec<String> = strs(&["", "a", "A", "-", "_", "0", "a-b_c", "--", "é", "日本語", "ß", "Ⅷ", "½", "𝔘", "\u{10ffff}"]);
    n.retain(|s| Identifier::new(s.clone()).is_ok());
    for len in [2, 16, 17, 127, 128, 129, 253, 254, 255] {
        n.push("z".repeat(len));
    }
    for (c, w) in [("é", 2), ("語", 3), ("𝔘", 4)] {
        for len in [126, 127, 128, 252, 253, 254, 255] {
            let mut s = c.repeat(len / w);
            s.push_str(&"k".repeat(len % w));
            n.push(s);
        }
    }
    if thorough {
        for len in 3..=255 {
            n.push("q".repeat(len));
        }
    }
    let mut seen = BTreeSet::new();
    n.retain(|s| seen.insert(s.clone()));
    n
}

/// Ids whose bytes are all alike but one, at every position.
fn ids() -> Vec<Uuid> {
    let mut r = BTreeSet::new();
    for base in [0x00u8, 0xff, 0x41, 0x7f, 0x80] {
        for pos in 0..16 {
            for b in [0x00u8, 0x01, 0x0a, 0x7f, 0x80, 0xfe, 0xff] {
                let mut x = [base; 16];
                x[pos] = b;
                r.insert(Uuid::from_bytes(x));
            }
        }
    }
    r.into_iter().collect()
}

/// Stores things by one route, reads them back by every route, immediately
/// and after the store was closed and opened again.
struct Fidelity {
    store: Store,
    name: String,
    /// Whether the store may refuse what it is given (and then keeps nothing).
    may_refuse: bool,
    /// Each case is a graph to store in full.
    cases: Vec<(String, Vec<BulkInsertItem>)>,
}

impl Fidelity {
    fn compare(&self, live: &Live, m: &Model, when: &str, env: &mut Env) -> Result<(), String> {
        let mut qs = vec![
            Query::AllVertex,
            Query::AllEdge,
            q_props(Query::AllVertex, None),
            q_props(Query::AllEdge, None),
            q_count(Query::AllVertex),
            q_count(Query::AllEdge),
            q_range(None, None, u32::MAX),
            q_pipe(Query::AllVertex, true, None, u32::MAX),
            q_pipe(Query::AllVertex, false, None, u32::MAX),
        ];
        let ids: Vec<Uuid> = m.vertices.keys().cloned().collect();
        let edges: Vec<EKey> = m.edges.iter().cloned().collect();
        qs.push(q_vs(&ids));
        qs.push(q_es(&edges));
        let types: BTreeSet<&String> = m.vertices.values().chain(m.edges.iter().map(|e| &e.1)).collect();
        let names: BTreeSet<&String> = m.vprops.keys().map(|k| &k.1).chain(m.eprops.keys().map(|k| &k.1)).collect();
        if types.len() <= 8 {
            for t in types {
                qs.push(q_range(None, Some(t), u32::MAX));
                qs.push(q_pipe(Query::AllVertex, true, Some(t), u32::MAX));
                qs.push(q_pipe(Query::AllVertex, false, Some(t), u32::MAX));
            }
        }
        if names.len() <= 8 {
            for n in names {
                qs.push(q_props(q_vs(&ids), Some(n)));
                qs.push(q_props(q_es(&edges), Some(n)));
                if m.indexed.contains(n) {
                    qs.push(q_vhas(n));
                    qs.push(q_ehas(n));
                    qs.push(q_props(q_vhas(n), None));
                }
            }
        }
        if edges.len() <= 8 {
            for e in &edges {
                qs.push(q_props(q_pipe(q_v(e.0), true, Some(&e.1), 1), None));
            }
        }
        for q in qs {
            env.count("queries compared", 1);
            with_db!(&live.db, db => check_query(db, m, &q)).map_err(|e| format!("{when}: {}", &e[..e.char_indices().nth(1500).map_or(e.len(), |x| x.0)]))?;
        }
        Ok(())
    }
}

impl Part for Fidelity {
    fn name(&self) -> String {
        format!("{}/{:?}", self.name, self.store)
    }
    fn len(&self) -> u64 {
        self.cases.len() as u64
    }
    fn text(&self, i: u64) -> String {
        self.cases[i as usize].0.clone()
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let (what, items) = &self.cases[i as usize];
        let fail = |e: String| Fail::new(&format!("{:?} {what}", self.store), format!("{:?}, {what}: {e}", self.store));
        let mut live = Live::fresh(self.store, env).map_err(fail)?;
        let mut t = Track::default();
        let first = items.iter().find_map(|i| match i {
            BulkInsertItem::VertexProperty(_, n, _) => Some(n.to_string()),
            _ => None,
        });
        let first = if self.may_refuse { None } else { first };
        // Half singly, half in bulk.
        if self.may_refuse {
            for op in [Op::Bulk(items.clone()), Op::Set(Query::AllVertex, "q".into(), Json::new(serde_json::json!(1)))] {
                let got = with_db!(&live.db, db => apply(db, &op));
                if let Ans::Ok = got {
                    with_db!(&live.db, db => apply_model(&mut t.m, &op, db)).map_err(fail)?;
                } else {
                    env.count("refused", 1);
                }
            }
            step(&mut live, &mut t, &Op::Index("p".into())).map_err(fail)?;
            for it in items {
                if let BulkInsertItem::VertexProperty(v, n, x) = it {
                    let op = Op::Set(q_v(*v), n.to_string(), x.clone());
                    let got = with_db!(&live.db, db => apply(db, &op));
                    if let Ans::Ok = got {
                        with_db!(&live.db, db => apply_model(&mut t.m, &op, db)).map_err(fail)?;
                    }
                }
            }
        } else if i % 2 == 0 {
            step(&mut live, &mut t, &Op::Bulk(items.clone())).map_err(fail)?;
        } else {
            for it in items {
                let op = match it {
                    BulkInsertItem::Vertex(v) => Op::CreateVertex(v.id, v.t.to_string()),
                    BulkInsertItem::Edge(e) => Op::CreateEdge(e.outbound_id, e.t.to_string(), e.inbound_id),
                    BulkInsertItem::VertexProperty(v, n, x) => Op::Set(q_v(*v), n.to_string(), x.clone()),
                    BulkInsertItem::EdgeProperty(e, n, x) => Op::Set(q_e(&ek(e)), n.to_string(), x.clone()),
                };
                step(&mut live, &mut t, &op).map_err(fail)?;
            }
        }
        if let Some(n) = first {
            step(&mut live, &mut t, &Op::Index(n)).map_err(fail)?;
        }
        self.compare(&live, &t.m, "at once", env).map_err(fail)?;
        if self.store == Store::MemFile {
            step(&mut live, &mut t, &Op::Sync).map_err(fail)?;
        }
        live.reopen().map_err(fail)?;
        self.compare(&live, &t.m, "after reopening", env).map_err(fail)?;
        // And once more, from what was read.
        if self.store == Store::MemFile {
            step(&mut live, &mut t, &Op::Sync).map_err(fail)?;
            live.reopen().map_err(fail)?;
            self.compare(&live, &t.m, "after reopening twice", env).map_err(fail)?;
        }
        env.state(model_hash(&t.m, ""));
        env.count("transitions", items.len() as u64);
        Ok(())
    }
}

pub fn c11(cfg: &Cfg) -> Parts {
    let mut parts: Parts = vec![];
    for store in [Store::MemFile, Store::Rocks] {
        let mut c: Vec<(String, Vec<BulkInsertItem>)> = vec![];
        // Values.
        for chunk in values(2, if cfg.thorough { 3 } else { 2 }).chunks(16) {
            c.push((format!("values {} .. {}", chunk[0].0, chunk.last().unwrap().0), graph_of(chunk)));
        }
        parts.push(Box::new(Fidelity { store, name: "values".into(), may_refuse: false, cases: std::mem::take(&mut c) }));
        let mant: &[u64] = if cfg.thorough { &[0, 1, 1 << 51, 1 << 26, 0xf_ffff_ffff_ffff, 0x5_5555_5555_5555, 3 << 50, 12345] } else { &[0, 1 << 51] };
        for chunk in floats(mant).0.chunks(64) {
            let vals: Vec<Json> = chunk.iter().map(|f| Json::new(serde_json::json!(f))).collect();
            c.push((format!("floats {:e} .. {:e}", chunk[0], chunk.last().unwrap()), graph_of(&vals)));
        }
        parts.push(Box::new(Fidelity { store, name: "floats of every exponent".into(), may_refuse: false, cases: std::mem::take(&mut c) }));
        // Floats that serde_json alters unless told not to, one by one.
        c.clear();
        for f in LOSSY {
            c.push((format!("float {f:e}"), graph_of(&[Json::new(serde_json::json!(f))])));
        }
        parts.push(Box::new(Fidelity { store, name: "floats of many digits".into(), may_refuse: false, cases: std::mem::take(&mut c) }));
        // Strings of every scalar value class, long strings.
        let mut strings: Vec<String> = vec![];
        for b in 0..=0xffu32 {
            strings.push(char::from_u32(b).unwrap().to_string());
        }
        for u in [0x100, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff] {
            strings.push(char::from_u32(u).unwrap().to_string());
        }
        for n in [31, 32, 255, 256, 65535, 65536, 1 << 20] {
            strings.push("s".repeat(n));
        }
        for chunk in strings.chunks(32) {
            let vals: Vec<Json> = chunk.iter().map(|s| Json::new(serde_json::json!(s))).collect();
            c.push((format!("strings {:.20?} ..", chunk[0]), graph_of(&vals)));
            let vals: Vec<Json> = chunk.iter().map(|s| Json::new(serde_json::json!({s.as_str(): 1}))).collect();
            c.push((format!("objects with key {:.20?} ..", chunk[0]), graph_of(&vals)));
        }
        for n in [15, 16, 65535, 65536] {
            c.push((format!("array of {n}"), graph_of(&[Json::new(serde_json::json!(vec![7; n]))])));
        }
        parts.push(Box::new(Fidelity { store, name: "strings".into(), may_refuse: false, cases: std::mem::take(&mut c) }));
        // Nesting.
        let deep: Vec<usize> = if cfg.thorough { (1..=126).collect() } else { vec![1, 2, 8, 16, 31, 32, 63, 64, 100, 125, 126] };
        for d in deep {
            c.push((format!("arrays nested {d} deep"), graph_of(&[j(&nested("[", "1", "]", d))])));
            c.push((format!("objects nested {d} deep"), graph_of(&[j(&nested("{\"a\":", "1", "}", d))])));
        }
        let mut deeper = vec![];
        for d in [127, 128, 129, 200, 255, 256, 500, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1100, 2000] {
            for (what, array) in [("arrays", true), ("objects", false)] {
                let mut v = serde_json::json!(1);
                for _ in 0..d {
                    v = if array { serde_json::json!([v]) } else { serde_json::json!({"a": v}) };
                }
                deeper.push((format!("{what} nested {d} deep"), graph_of(&[j("0"), Json::new(v)])));
            }
        }
        parts.push(Box::new(Fidelity { store, name: "nesting that may be refused".into(), may_refuse: true, cases: deeper }));
        parts.push(Box::new(Fidelity { store, name: "nesting".into(), may_refuse: false, cases: std::mem::take(&mut c) }));
        // Names, as types and as property names.
        for n in names(cfg.thorough) {
            let e = edge_of(&(id(1), n.clone(), id(2)));
            c.push((
                format!("name of {} bytes {:.12}", n.len(), n),
                vec![
                    BulkInsertItem::Vertex(vertex(id(1), &n)),
                    BulkInsertItem::Vertex(vertex(id(2), "o")),
                    BulkInsertItem::Edge(e.clone()),
                    BulkInsertItem::Edge(edge_of(&(id(1), "o".into(), id(2)))),
                    BulkInsertItem::VertexProperty(id(1), ident(&n), j("1")),
                    BulkInsertItem::VertexProperty(id(1), ident("o"), j("2")),
                    BulkInsertItem::EdgeProperty(e.clone(), ident(&n), j("1")),
                    BulkInsertItem::EdgeProperty(e, ident("o"), j("2")),
                ],
            ));
        }
        parts.push(Box::new(Fidelity { store, name: "names".into(), may_refuse: false, cases: std::mem::take(&mut c) }));
        // All names on one element.
        let all = names(cfg.thorough);
        let mut items = vec![BulkInsertItem::Vertex(vertex(id(1), "x")), BulkInsertItem::Vertex(vertex(id(2), "x"))];
        for n in &all {
            let e = edge_of(&(id(1), n.clone(), id(2)));
            items.push(BulkInsertItem::Edge(e.clone()));
            items.push(BulkInsertItem::VertexProperty(id(1), ident(n), Json::new(serde_json::json!(n))));
            for m in &all {
                if m.len() < 4 || n.len() > 250 {
                    items.push(BulkInsertItem::EdgeProperty(e.clone(), ident(m), Json::new(serde_json::json!([n, m]))));
                }
            }
        }
        c.push(("all names at once, in bulk".into(), items.clone()));
        c.push(("all names at once, singly".into(), items));
        // Ids.
        let all = ids();
        for chunk in all.chunks(24) {
            let mut items = vec![];
            for a in chunk {
                items.push(BulkInsertItem::Vertex(vertex(*a, "x")));
                items.push(BulkInsertItem::VertexProperty(*a, ident("p"), Json::new(serde_json::json!(a.to_string()))));
            }
            for a in chunk {
                for b in chunk {
                    let e = edge_of(&(*a, "t".into(), *b));
                    items.push(BulkInsertItem::Edge(e.clone()));
                    items.push(BulkInsertItem::EdgeProperty(e, ident("p"), Json::new(serde_json::json!([a.to_string(), b.to_string()]))));
                }
            }
            c.push((format!("ids {} ..", chunk[0]), items));
        }
        let mut items = vec![];
        for a in &all {
            items.push(BulkInsertItem::Vertex(vertex(*a, "x")));
            items.push(BulkInsertItem::VertexProperty(*a, ident("p"), Json::new(serde_json::json!(a.to_string()))));
        }
        c.push(("all ids at once, in bulk".into(), items.clone()));
        c.push(("all ids at once, singly".into(), items));
        parts.push(Box::new(Fidelity { store, name: "ids and combinations".into(), may_refuse: false, cases: c }));
    }
    parts
}

pub fn c12(cfg: &Cfg) -> Parts {
    let mut parts: Parts = vec![];
    // The successor of an id.
    let mut succ: BTreeSet<u128> = BTreeSet::new();
    for tail in 0..=16u32 {
        for b in 0..=255u128 {
            for head in [0u128, u128::MAX, 0x0102030405060708090a0b0c0d0e0f10, 0x80808080808080808080808080808080, 0x00ff00ff00ff00ff00ff00ff00ff00ff] {
                let low = if tail == 16 { u128::MAX } else { (1u128 << (8 * tail)) - 1 };
                let mut x = head | low;
                if tail < 16 {
                    x = x & !(0xffu128 << (8 * tail)) | b << (8 * tail);
                }
                succ.insert(x);
                succ.insert(x.wrapping_sub(1));
                succ.insert(x.wrapping_add(1));
            }
        }
    }
    let succ: Rc<Vec<u128>> = Rc::new(succ.into_iter().collect());
    let s2 = succ.clone();
    parts.push(cases(
        "successor of an id",
        succ.len() as u64,
        move |i, _| {
            let x = succ[i as usize];
            let got = util::next_uuid(Uuid::from_u128(x));
            let want = x.checked_add(1).map(Uuid::from_u128);
            match (&got, want) {
                (Ok(g), Some(w)) if *g == w => Ok(()),
                (Err(ValidationError::CannotIncrementUuid), None) => Ok(()),
                _ => Err(Fail::new(&format!("next {x:032x}"), format!("the successor of {x:032x} is given as {got:?}"))),
            }
        },
        move |i| format!("successor of {:032x}", s2[i as usize]),
    ));
    // Keys of every shape the store uses: all part lists over an alphabet.
    let ids: Vec<Uuid> = {
        let mut v: BTreeSet<u128> = [0, 1, 2, 0xff, 0x100, u128::MAX, u128::MAX - 1, 1 << 127, (1 << 127) - 1, 1 << 120, CARRY, CARRY + 1].into_iter().collect();
        v.insert(0x0161_0000_0000_0000_0000_0000_0000_0000);
        v.insert(0x6161_6161_6161_6161_6161_6161_6161_6161);
        if cfg.thorough {
            for k in 0..16 {
                v.insert(1 << (8 * k));
                v.insert(0xff << (8 * k));
            }
        }
        v.into_iter().map(Uuid::from_u128).collect()
    };
    let mut names = strs(&["", "a", "aa", "ab", "b", "a-", "-", "_", "é", "A", "aaaaaaaaaaaaaaaa"]);
    names.push("a".repeat(255));
    names.push("a".repeat(254));
    if cfg.thorough {
        names.extend((17..60).map(|n| "b".repeat(n)));
    }
    let jsons: Vec<Json> = values(1, 2).into_iter().step_by(if cfg.thorough { 3 } else { 9 }).collect();
    let shapes = ["U", "UIU", "UF", "UIUF", "IJU", "IJUIU"];
    for shape in shapes {
        let mut lists: Vec<Vec<Ko>> = vec![vec![]];
        // The longest shape over a part of the alphabet.
        let thin = if shape.len() >= 4 { 3 } else { 1 };
        let (ids, names, jsons): (Vec<_>, Vec<_>, Vec<_>) = (
            ids.iter().cloned().step_by(thin).collect(),
            names.iter().cloned().step_by(if shape.len() >= 4 && !cfg.thorough { 2 } else { 1 }).collect(),
            jsons.iter().cloned().step_by(thin).collect(),
        );
        for c in shape.chars() {
            let mut next = vec![];
            for l in &lists {
                let opts: Vec<Ko> = match c {
                    'U' => ids.iter().map(|u| Ko::U(*u)).collect(),
                    'I' => names.iter().map(|n| Ko::I(n.clone())).collect(),
                    'F' => names.iter().map(|n| Ko::F(n.clone())).collect(),
                    _ => jsons.iter().map(|n| Ko::J(n.clone())).collect(),
                };
                for o in opts {
                    let mut l = l.clone();
                    l.push(o);
                    next.push(l);
                }
            }
            lists = next;
        }
        let lists = Rc::new(lists);
        let l2 = lists.clone();
        let all: Rc<OnceCell<Keys>> = Default::default();
        parts.push(cases(
            &format!("keys of shape {shape}"),
            lists.len() as u64,
            move |i, env| {
                let keys = all.get_or_init(|| Keys::of(&lists));
                let i = i as usize;
                let fail = |e: String| Fail::new(&format!("key {}", ktext(&lists[i])), format!("the key of {}: {e}", ktext(&lists[i])));
                let key = build(&lists[i]);
                let expect_len: usize = lists[i].iter().map(|k| k.component(|c| c.byte_len())).sum();
                if key.len() != expect_len {
                    return Err(fail(format!("is {} bytes long, but its parts say {expect_len}", key.len())));
                }
                // The same parts, built again.
                if build(&lists[i]) != key {
                    return Err(fail("is not determined by its parts".into()));
                }
                // Read back.
                let mut cur = Cursor::new(key.clone());
                for k in &lists[i] {
                    let ok = match k {
                        Ko::U(u) => util::read_uuid(&mut cur).is_ok_and(|x| x == *u),
                        Ko::I(s) => unsafe { util::read_identifier(&mut cur) }.is_ok_and(|x| x.as_str() == s && x == ident(s)),
                        Ko::F(s) => util::read_fixed_length_string(&mut cur).is_ok_and(|x| x == *s),
                        Ko::J(_) => util::read_u64(&mut cur).is_ok(),
                    };
                    if !ok {
                        return Err(fail(format!("does not read back at {}", ktext(std::slice::from_ref(k)))));
                    }
                }
                if cur.position() as usize != key.len() {
                    return Err(fail("has bytes left after reading it back".into()));
                }
                // Reading a cut key is an error, not something else.
                if key.len() > 1 && !matches!(lists[i].last(), Some(Ko::F(_))) {
                    let mut cur = Cursor::new(key[..key.len() - 1].to_vec());
                    let mut err = false;
                    for k in &lists[i] {
                        err |= match k {
                            Ko::U(_) => util::read_uuid(&mut cur).is_err(),
                            Ko::I(_) => unsafe { util::read_identifier(&mut cur) }.is_err(),
                            Ko::F(_) => util::read_fixed_length_string(&mut cur).is_err(),
                            Ko::J(_) => util::read_u64(&mut cur).is_err(),
                        };
                        if err {
                            break;
                        }
                    }
                    if !err {
                        return Err(fail("reads back even though its last byte is missing".into()));
                    }
                }
                // No other part list has this key.
                if keys.by_key[&key] != 1 {
                    return Err(fail(format!("is also that of {} other part list(s)", keys.by_key[&key] - 1)));
                }
                // The scan for each leading part list finds its keys and no other's.
                for cut in 1..=lists[i].len() {
                    if matches!(lists[i][cut - 1], Ko::F(_)) {
                        continue;
                    }
                    let prefix = build(&lists[i][..cut]);
                    let at = keys.sorted.partition_point(|(k, _)| *k < prefix);
                    let n = keys.sorted[at..].iter().take_while(|(k, _)| k.starts_with(&prefix)).count();
                    let want = keys.by_prefix[&(cut, ktext(&lists[i][..cut]))];
                    if n != want {
                        return Err(fail(format!("a scan for its first {cut} part(s) finds {n} keys, there are {want}")));
                    }
                    env.count("scans", 1);
                }
                // Keys sort as the leading ids do.
                let at = keys.sorted.partition_point(|(k, _)| *k < key);
                if let (Some(Ko::U(a)), Some((_, n))) = (lists[i].first(), keys.sorted.get(at + 1)) {
                    if let Some(Ko::U(b)) = lists[*n].first() {
                        if a > b {
                            return Err(fail(format!("sorts before that of {}", ktext(&lists[*n]))));
                        }
                    }
                }
                Ok(())
            },
            move |i| ktext(&l2[i as usize]),
        ));
    }
    // The same, seen through the RocksDB store: owners and names that are
    // neighbours or prefixes of each other, every one asked for and deleted.
    let names2: Vec<String> = strs(&["", "a", "aa", "a-", "ab", "b", "-"]).into_iter().chain(["a".repeat(255), "a".repeat(254)]).collect();
    let owners = [NIL, 1, 2, 0xff, 0x100, CARRY, CARRY + 1, MAXID - 1, MAXID];
    let mut grid: Vec<(usize, usize, usize)> = vec![];
    for o in 0..owners.len() {
        for n in 0..names2.len() {
            for what in 0..4 {
                grid.push((o, n, what));
            }
        }
    }
    for store in [Store::Mem, Store::Rocks] {
        let (grid, names2) = (Rc::new(grid.clone()), names2.clone());
        let g2 = grid.clone();
        let n2 = names2.clone();
        let live: RefCell<Option<(Live, Track)>> = RefCell::new(None);
        parts.push(cases(
            &format!("owners and names in the {store:?} store"),
            grid.len() as u64,
            move |i, env| {
                let mut slot = live.borrow_mut();
                let fail = |e: String| Fail::new(&format!("{store:?} scan {i}"), format!("{store:?}: {e}"));
                let mut full = vec![];
                for (k, o) in owners.iter().enumerate() {
                    full.push(BulkInsertItem::Vertex(vertex(id(*o), &names2[k])));
                    for n in &names2 {
                        let e = edge_of(&(id(*o), n.clone(), id(owners[(k + 1) % owners.len()])));
                        full.push(BulkInsertItem::Edge(e.clone()));
                        full.push(BulkInsertItem::VertexProperty(id(*o), ident(n), Json::new(serde_json::json!([n, k]))));
                        full.push(BulkInsertItem::EdgeProperty(e, ident(n), Json::new(serde_json::json!([n, k]))));
                    }
                }
                if slot.is_none() {
                    let mut l = Live::fresh(store, env).map_err(fail)?;
                    let mut t = Track::default();
                    for n in &names2 {
                        step(&mut l, &mut t, &Op::Index(n.clone())).map_err(fail)?;
                    }
                    *slot = Some((l, t));
                }
                let (l, t) = slot.as_mut().unwrap();
                step(l, t, &Op::Bulk(full)).map_err(fail)?;
                let (o, n, what) = grid[i as usize];
                let (o, n) = (id(owners[o]), &names2[n]);
                let op = match what {
                    0 => Op::Delete(q_props(q_v(o), Some(n))),
                    1 => Op::Delete(q_pipe(q_v(o), true, Some(n), u32::MAX)),
                    2 => Op::Delete(q_props(q_pipe(q_v(o), true, Some(n), u32::MAX), Some(n))),
                    _ => Op::Delete(q_v(o)),
                };
                step(l, t, &op).map_err(fail)?;
                let mut qs = vec![q_props(Query::AllVertex, None), q_props(Query::AllEdge, None), Query::AllEdge, q_pipe(Query::AllVertex, false, None, u32::MAX), q_pipe(Query::AllVertex, true, None, u32::MAX)];
                for n in &names2 {
                    qs.push(q_vhas(n));
                    qs.push(q_ehas(n));
                    qs.push(q_props(Query::AllVertex, Some(n)));
                    qs.push(q_pipe(Query::AllVertex, true, Some(n), u32::MAX));
                    qs.push(q_pipe(Query::AllVertex, false, Some(n), u32::MAX));
                }
                for q in qs {
                    env.count("queries compared", 1);
                    with_db!(&l.db, db => check_query(db, &t.m, &q)).map_err(|e| fail(format!("after {}: {}", optext(&op), &e[..e.char_indices().nth(1500).map_or(e.len(), |x| x.0)])))?;
                }
                env.state(model_hash(&t.m, ""));
                Ok(())
            },
            move |i| format!("{:?}", (g2[i as usize].0, sn(&n2[g2[i as usize].1]), g2[i as usize].2)),
        ));
    }
    parts
}

#[derive(Clone, Debug)]
enum Ko {
    U(Uuid),
    I(String),
    F(String),
    J(Json),
}
impl Ko {
    fn component<T>(&self, f: impl FnOnce(Component) -> T) -> T {
        match self {
            Ko::U(u) => f(Component::Uuid(*u)),
            Ko::I(s) => f(Component::Identifier(ident(s))),
            Ko::F(s) => f(Component::FixedLengthString(s)),
            Ko::J(v) => f(Component::Json(v)),
        }
    }
}
fn build(l: &[Ko]) -> Vec<u8> {
    let c: Vec<Component> = l
        .iter()
        .map(|k| match k {
            Ko::U(u) => Component::Uuid(*u),
            Ko::I(s) => Component::Identifier(ident(s)),
            Ko::F(s) => Component::FixedLengthString(s),
            Ko::J(v) => Component::Json(v),
        })
        .collect();
    util::build(&c)
}
fn ktext(l: &[Ko]) -> String {
    l.iter()
        .map(|k| match k {
            Ko::U(u) => format!("{:032x}", u.as_u128()),
            Ko::I(s) => format!("name:{s}"),
            Ko::F(s) => format!("text:{s}"),
            Ko::J(v) => format!("json:{}", canon(&v.0)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
struct Keys {
    by_key: HashMap<Vec<u8>, usize>,
    by_prefix: HashMap<(usize, String), usize>,
    sorted: Vec<(Vec<u8>, usize)>,
}
impl Keys {
    fn of(lists: &[Vec<Ko>]) -> Keys {
        let mut k = Keys { by_key: Default::default(), by_prefix: Default::default(), sorted: vec![] };
        for (n, l) in lists.iter().enumerate() {
            let key = build(l);
            *k.by_key.entry(key.clone()).or_default() += 1;
            for cut in 1..=l.len() {
                *k.by_prefix.entry((cut, ktext(&l[..cut]))).or_default() += 1;
            }
            k.sorted.push((key, n));
        }
        k.sorted.sort();
        k
    }
}

/// What the documentation allows in a name.
fn allowed(c: char) -> bool {
    match c {
        'a'..='z' | 'A'..='Z' | '0'..='9' | '-' | '_' => true,
        '\0'..='\x7f' => false,
        _ => c.is_alphanumeric(),
    }
}

fn check_name(s: &str) -> Result<(), Fail> {
    let want = if s.len() > 255 {
        Err(ValidationError::ValueTooLong)
    } else if s.chars().all(allowed) {
        Ok(())
    } else {
        Err(ValidationError::InvalidValue)
    };
    let entrances: [(&str, ValidationResult<Identifier>); 4] = [
        ("the constructor", Identifier::new(s)),
        ("the constructor, given a String", Identifier::new(s.to_string())),
        ("parsing", Identifier::from_str(s)),
        ("conversion", Identifier::try_from(s.to_string())),
    ];
    for (how, got) in entrances {
        let ok = match (&got, &want) {
            (Ok(i), Ok(())) => i.as_str() == s && i.to_string() == s && **i == *s && i.len() == s.len(),
            (Err(a), Err(b)) => format!("{a:?}") == format!("{b:?}"),
            _ => false,
        };
        if !ok {
            let t: String = s.chars().take(40).flat_map(char::escape_default).collect();
            return Err(Fail::new(
                &format!("name {} bytes {t}", s.len()),
                format!("a name of {} bytes ({t}): {how} answered {got:?}, expected {want:?}", s.len()),
            ));
        }
    }
    Ok(())
}

pub fn c13(cfg: &Cfg) -> Parts {
    let mut parts: Parts = vec![];
    // Every character there is, alone and in the middle, in blocks.
    parts.push(cases(
        "every Unicode character",
        0x1100,
        move |i, env| {
            for c in (i * 256..i * 256 + 256).filter_map(|u| char::from_u32(u as u32)) {
                check_name(&c.to_string())?;
                check_name(&format!("a{c}b"))?;
                check_name(&format!("{c}-_"))?;
                env.count("names", 3);
            }
            Ok(())
        },
        |i| format!("characters U+{:04X}..", i * 256),
    ));
    // Every byte length around the limit, of characters of every width, with
    // a forbidden character at every position.
    let widths = ['z', 'é', '語', '𝔘'];
    let max = if cfg.thorough { 1100 } else { 320 };
    parts.push(cases(
        "every length",
        max,
        move |i, env| {
            let len = i as usize;
            for c in widths {
                let w = c.len_utf8();
                let mut s: String = std::iter::repeat(c).take(len / w).collect();
                s.push_str(&"k".repeat(len % w));
                check_name(&s)?;
                env.count("names", 1);
                for bad in ['$', ' ', '\0', '.', '/', '\u{7f}', '\u{2028}', '\u{301}'] {
                    for at in 0..s.chars().count() {
                        let t: String = s.chars().enumerate().map(|(k, x)| if k == at { bad } else { x }).collect();
                        if len < 60 || at < 2 || at + 2 >= s.chars().count() || [127, 128, 254, 255, 256].contains(&len) {
                            check_name(&t)?;
                            env.count("names", 1);
                        }
                    }
                }
            }
            Ok(())
        },
        |i| format!("names of {i} bytes"),
    ));
    // Every short string over characters of every kind.
    let alpha: Vec<char> = "aZ0-_é語$ .\0\n/½\u{301}".chars().collect();
    let depth = if cfg.thorough { 5 } else { 4 };
    let k = alpha.len() as u64;
    let total = k.pow(depth);
    parts.push(cases(
        "every short string",
        total,
        move |mut i, env| {
            let mut s = String::new();
            for _ in 0..depth {
                s.push(alpha[(i % k) as usize]);
                i /= k;
            }
            env.count("names", 1);
            check_name(&s)
        },
        |i| format!("string {i}"),
    ));
    // Equality, hash and order are those of the texts.
    let mut texts = names(true);
    for a in "aZ0-_é語".chars() {
        for b in "aZ0-_é語".chars() {
            texts.push(format!("{a}{b}"));
            texts.push(format!("x{a}{b}"));
        }
    }
    let mut seen = BTreeSet::new();
    texts.retain(|t| seen.insert(t.clone()));
    // Not in order of their texts.
    texts.sort_by_key(|t| h(t));
    let texts = Rc::new(texts);
    let t2 = texts.clone();
    parts.push(cases(
        "equality, hash and order on all pairs",
        texts.len() as u64,
        move |i, env| {
            let a = &texts[i as usize];
            let ia = ident(a);
            for b in texts.iter() {
                let ib = ident(&b.clone());
                let fail = |w: &str| Err(Fail::new(&format!("pair {a} {b}"), format!("the identifiers {a} and {b}: {w}")));
                if (ia == ib) != (a == b) || (ia != ib) == (a == b) {
                    return fail("equality is not that of the texts");
                }
                if a == b && h(&ia) != h(&ib) {
                    return fail("equal identifiers hash differently");
                }
                if ia.cmp(&ib) != a.cmp(b) || ia.partial_cmp(&ib) != Some(a.cmp(b)) {
                    return fail("the order is not that of the texts");
                }
                env.count("pairs", 1);
            }
            let d = Identifier::default();
            if d.as_str() != "" || (d == ia) != a.is_empty() {
                return Err(Fail::new("default", "the default identifier is not the empty one"));
            }
            Ok(())
        },
        move |i| format!("pairs with {}", t2[i as usize]),
    ));
    parts
}
