//! Concurrent use: C19 (memory), C20 (RocksDB).

use indradb::{BulkInsertItem, Database, MemoryDatastore, Query, RocksdbDatastore};
use mc_core::explore::model_hash;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{catch, Cfg, Env, Fail, Part};
use mc_core::universe::*;
use mcstd::sched;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

type Parts = Vec<Box<dyn Part>>;
const M: u32 = u32::MAX;

#[derive(Clone)]
enum Db {
    Mem(Arc<Database<MemoryDatastore>>),
    Rocks(Arc<Database<RocksdbDatastore>>),
}
macro_rules! on {
    ($any:expr, $db:ident => $e:expr) => {
        match $any {
            Db::Mem($db) => $e,
            Db::Rocks($db) => $e,
        }
    };
}
impl Db {
    fn apply(&self, op: &Op) -> Ans {
        on!(self, db => apply(&**db, op))
    }
    fn get(&self, q: &Query) -> Ans {
        on!(self, db => match get(&**db, q) {
            Ans::Out(o) => Ans::Out(o.into_iter().map(|x| x.sorted()).collect()),
            a => a,
        })
    }
    fn check(&self, m: &Model, bat: &[Query]) -> Result<u64, String> {
        on!(self, db => check_state(&**db, m, bat))
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Mem,
    MemFile,
    Rocks,
}

/// How a schedule's outcome is judged.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Rule {
    /// Answers and final state as in some order.
    Full,
    /// Answers of creations, and the final state, as in some order.
    Writes,
    /// The final state is consistent.
    Consistent,
}

struct Conc {
    name: String,
    kind: Kind,
    rule: Rule,
    bound: u32,
    init: Vec<Op>,
    /// The operations threads choose from, and how many each performs.
    ops: Vec<Op>,
    shape: Vec<usize>,
    /// Leave out scenarios that differ only in which thread is which.
    sym: bool,
    /// Only scenarios with at least one operation from this index on.
    need: usize,
    uni: Universe,
    list: Option<Vec<Vec<u16>>>,
    sess: Option<(Arc<Database<RocksdbDatastore>>, PathBuf, u64)>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Seen {
    answers: Vec<Vec<Ans>>,
    state: Vec<Ans>,
}

fn strip_out(a: Ans, strip: &str) -> Ans {
    let s = |n: String| n.strip_prefix(strip).map(|x| x.to_string()).unwrap_or(n);
    match a {
        Ans::Out(o) => Ans::Out(
            o.into_iter()
                .map(|m| match m {
                    MOut::VP(v) => MOut::VP(v.into_iter().map(|(k, p)| (k, p.into_iter().map(|(n, x)| (s(n), x)).collect())).collect()),
                    MOut::EP(v) => MOut::EP(v.into_iter().map(|(k, p)| (k, p.into_iter().map(|(n, x)| (s(n), x)).collect())).collect()),
                    m => m,
                })
                .collect(),
        ),
        a => a,
    }
}

/// All merges of the threads' operations, as lists of thread numbers.
fn merges(shape: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                cur.push(t);
                go(left, cur, out);
                cur.pop();
                left[t] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut shape.to_vec(), &mut vec![], &mut out);
    out
}

/// One execution's store.
struct Place {
    db: Db,
    strip: String,
    image: Option<PathBuf>,
}

impl Conc {
    fn enumerate(&mut self) {
        let n = self.ops.len();
        let len: usize = self.shape.iter().sum();
        let mut list = vec![];
        let mut d = vec![0u16; len];
        'all: loop {
            let ok_need = d.iter().any(|x| *x as usize >= self.need);
            let ok_sym = !self.sym || {
                // Threads of equal length in non-decreasing order.
                let mut parts = vec![];
                let mut k = 0;
                for s in &self.shape {
                    parts.push(d[k..k + s].to_vec());
                    k += s;
                }
                parts.windows(2).all(|w| w[0].len() != w[1].len() || w[0] <= w[1])
            };
            if ok_need && ok_sym {
                list.push(d.clone());
            }
            let mut k = len;
            loop {
                if k == 0 {
                    break 'all;
                }
                k -= 1;
                d[k] += 1;
                if (d[k] as usize) < n {
                    break;
                }
                d[k] = 0;
            }
        }
        self.list = Some(list);
    }

    fn threads(&self, i: u64) -> Vec<Vec<Op>> {
        let d = &self.list.as_ref().unwrap()[i as usize];
        let mut k = 0;
        self.shape
            .iter()
            .map(|s| {
                let t = d[k..k + s].iter().map(|x| self.ops[*x as usize].clone()).collect();
                k += s;
                t
            })
            .collect()
    }

    fn place(&mut self, env: &mut Env) -> Result<Place, String> {
        match self.kind {
            Kind::Mem => Ok(Place { db: Db::Mem(Arc::new(MemoryDatastore::new_db())), strip: String::new(), image: None }),
            Kind::MemFile => {
                let dir = env.scratch.join("img");
                std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
                let p = dir.join("image");
                let _ = std::fs::remove_file(&p);
                Ok(Place { db: Db::Mem(Arc::new(MemoryDatastore::create_msgpack_db(&p))), strip: String::new(), image: Some(p) })
            }
            Kind::Rocks => {
                if self.sess.as_ref().map_or(true, |s| s.2 >= 150) {
                    self.drop_session();
                    let p = env.fresh_path();
                    let db = RocksdbDatastore::new_db(&p).map_err(|e| e.to_string())?;
                    self.sess = Some((Arc::new(db), p, 0));
                }
                let s = self.sess.as_mut().unwrap();
                s.2 += 1;
                Ok(Place { db: Db::Rocks(s.0.clone()), strip: format!("{}-", s.2), image: None })
            }
        }
    }
    fn drop_session(&mut self) {
        if let Some((db, p, _)) = self.sess.take() {
            drop(db);
            let _ = std::fs::remove_dir_all(p);
        }
    }

    fn state(&self, p: &Place, bat: &[Query]) -> Vec<Ans> {
        let mut v: Vec<Ans> = bat.iter().map(|q| strip_out(p.db.get(q), &p.strip)).collect();
        if let Some(i) = &p.image {
            match MemoryDatastore::read_msgpack_db(i) {
                Ok(db) => {
                    let db = Db::Mem(Arc::new(db));
                    v.extend(bat.iter().map(|q| db.get(q)));
                }
                Err(e) => v.push(Ans::Err(format!("image: {e}"))),
            }
        }
        v
    }

    /// Cleans a shared store after an execution.
    fn clean(&mut self, p: &Place, dangling: bool) -> Result<(), String> {
        if self.kind != Kind::Rocks {
            return Ok(());
        }
        if dangling {
            let mut items = vec![];
            for i in &self.uni.ids {
                items.push(BulkInsertItem::Vertex(vertex(*i, "reset")));
            }
            for a in &self.uni.ids {
                for t in &self.uni.etypes {
                    for b in &self.uni.ids {
                        items.push(BulkInsertItem::Edge(edge_of(&(*a, t.clone(), *b))));
                    }
                }
            }
            p.db.apply(&Op::Bulk(items));
        }
        for q in [Query::AllEdge, Query::AllVertex] {
            p.db.apply(&Op::Delete(q));
        }
        for q in [Query::AllVertex, Query::AllEdge] {
            match p.db.get(&q) {
                Ans::Out(o) if o.iter().all(|x| x.len() == Some(0)) => {}
                a => return Err(format!("after deleting everything: {}", ans_text(&a))),
            }
        }
        Ok(())
    }

    fn sequential(&mut self, threads: &[Vec<Op>], order: &[usize], env: &mut Env) -> Result<Seen, String> {
        let p = self.place(env)?;
        let f = |n: &str| format!("{}{n}", p.strip);
        for o in &self.init {
            p.db.apply(&rename_op(o, &f));
        }
        let mut pos = vec![0; threads.len()];
        let mut answers = vec![vec![]; threads.len()];
        for t in order {
            let o = rename_op(&threads[*t][pos[*t]], &f);
            pos[*t] += 1;
            answers[*t].push(strip_out(p.db.apply(&o), &p.strip));
        }
        let bat = battery(&self.uni.renamed(&f), Depth::Core);
        let state = self.state(&p, &bat);
        self.clean(&p, true)?;
        Ok(Seen { answers, state })
    }
}

/// What the store says it contains.
fn derived(db: &Db, names: &[String], refused: &dyn Fn(&str) -> bool) -> Result<Model, String> {
    let mut m = Model::default();
    let one = |q: &Query| match db.get(q) {
        Ans::Out(mut o) => Ok(o.pop().unwrap()),
        a => Err(format!("{} answered {}", qtext(q), ans_text(&a))),
    };
    if let MOut::V(v) = one(&Query::AllVertex)? {
        m.vertices = v.into_iter().collect();
    }
    if let MOut::E(e) = one(&Query::AllEdge)? {
        m.edges = e.into_iter().collect();
    }
    if let MOut::VP(ps) = one(&q_props(Query::AllVertex, None))? {
        for ((i, _), p) in ps {
            for (n, v) in p {
                m.vprops.insert((i, n), v);
            }
        }
    }
    if let MOut::EP(ps) = one(&q_props(Query::AllEdge, None))? {
        for (e, p) in ps {
            for (n, v) in p {
                m.eprops.insert((e.clone(), n), v);
            }
        }
    }
    for n in names {
        if !refused(n) {
            m.indexed.insert(n.clone());
        }
    }
    Ok(m)
}

impl Conc {
    /// The final state is consistent: all views agree, no edge lacks an end,
    /// nothing is left over for elements that do not exist.
    fn consistent(&self, p: &Place, threads: &[Vec<Op>]) -> Result<(), String> {
        let f = |n: &str| format!("{}{n}", p.strip);
        let uni = self.uni.renamed(&f);
        let indexed: Vec<String> = self
            .init
            .iter()
            .chain(threads.iter().flatten())
            .filter_map(|o| if let Op::Index(n) = o { Some(f(n)) } else { None })
            .collect();
        let m = derived(&p.db, &uni.names, &|n| !indexed.iter().any(|x| x == n))?;
        p.db.check(&m, &battery(&uni, Depth::Full)).map_err(|e| format!("views disagree: {e}"))?;
        let bulk = threads.iter().flatten().any(|o| matches!(o, Op::Bulk(_)));
        if !bulk {
            for e in &m.edges {
                if !m.vertices.contains_key(&e.0) || !m.vertices.contains_key(&e.2) {
                    return Err(format!("edge {} lacks an end", se(e)));
                }
            }
            let mut m2 = m.clone();
            for i in &uni.ids {
                if !m.vertices.contains_key(i) {
                    p.db.apply(&Op::CreateVertex(*i, "again".into()));
                    m2.create_vertex(*i, "again");
                }
            }
            for a in &uni.ids {
                for t in &uni.etypes {
                    for b in &uni.ids {
                        p.db.apply(&Op::CreateEdge(*a, t.clone(), *b));
                        m2.create_edge(&(*a, t.clone(), *b));
                    }
                }
            }
            p.db.check(&m2, &battery(&uni, Depth::Core)).map_err(|e| format!("after creating what was missing: {e}"))?;
        }
        Ok(())
    }
}

fn times_allow(order: &[usize], times: &[Vec<(u64, u64)>]) -> bool {
    // No operation may come before one that had ended when it started.
    let mut pos = vec![0; times.len()];
    let mut seq = vec![];
    for t in order {
        seq.push(times[*t][pos[*t]]);
        pos[*t] += 1;
    }
    for i in 0..seq.len() {
        for j in i + 1..seq.len() {
            if seq[j].1 < seq[i].0 {
                return false;
            }
        }
    }
    true
}

fn creation_only(threads: &[Vec<Op>], a: &[Vec<Ans>]) -> Vec<Vec<Option<Ans>>> {
    threads
        .iter()
        .zip(a)
        .map(|(t, a)| {
            t.iter()
                .zip(a)
                .map(|(o, a)| match o {
                    Op::CreateVertex(..) | Op::CreateEdge(..) => Some(a.clone()),
                    _ => None,
                })
                .collect()
        })
        .collect()
}

fn threads_text(threads: &[Vec<Op>]) -> String {
    threads.iter().map(|t| format!("[{}]", optexts(t))).collect::<Vec<_>>().join(" || ")
}

impl Part for Conc {
    fn name(&self) -> String {
        format!("{}:{:?},bound {}", self.name, self.shape, self.bound)
    }
    fn len(&self) -> u64 {
        self.list.as_ref().unwrap().len() as u64
    }
    fn text(&self, i: u64) -> String {
        let init = if self.init.is_empty() { String::new() } else { format!("({}) ", optexts(&self.init)) };
        format!("{init}{}", threads_text(&self.threads(i)))
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let threads = self.threads(i);
        let key = format!("{} | {}", self.name, self.text(i));
        let fail = |what: String| Fail::new(&key, format!("{key}: {what}"));
        let err = |e: String| Fail::new(&key, format!("{key}: {e}"));
        // What sequential executions give.
        let mut seqs: Vec<(Vec<usize>, Seen)> = vec![];
        if self.rule != Rule::Consistent {
            for o in merges(&self.shape) {
                let s = match catch(|| self.sequential(&threads, &o, env)) {
                    Ok(r) => r.map_err(err)?,
                    Err(_) => {
                        // A panic without any concurrency is not for this check.
                        self.sess = None;
                        env.count("scenarios left out: they panic when run one after another", 1);
                        return Ok(());
                    }
                };
                seqs.push((o, s));
            }
        }
        let mut script: Vec<u16> = vec![];
        loop {
            let p = self.place(env).map_err(err)?;
            let f = |n: &str| format!("{}{n}", p.strip);
            for o in &self.init {
                p.db.apply(&rename_op(o, &f));
            }
            let mut slots = vec![];
            let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
            let mut names = vec![];
            for t in &threads {
                let slot: Arc<Mutex<Vec<(Ans, u64, u64)>>> = Default::default();
                slots.push(slot.clone());
                let ops: Vec<Op> = t.iter().map(|o| rename_op(o, &f)).collect();
                names.push(optexts(t));
                let db = p.db.clone();
                jobs.push(Box::new(move || {
                    for o in ops {
                        sched::point("operation");
                        let t0 = sched::now();
                        let a = db.apply(&o);
                        let t1 = sched::now();
                        slot.lock().unwrap().push((a, t0, t1));
                    }
                }));
            }
            let out = sched::execute(&script, &names, jobs, false);
            env.count("schedules executed", 1);
            env.count("scheduling decisions", out.trace.len() as u64);
            let judged = catch(|| -> Result<(), String> {
                if let Some(w) = &out.fail {
                    return Err(w.clone());
                }
                let mut answers = vec![];
                let mut times = vec![];
                for s in &slots {
                    let v = s.lock().unwrap().clone();
                    answers.push(v.iter().map(|x| strip_out(x.0.clone(), &p.strip)).collect::<Vec<_>>());
                    times.push(v.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>());
                }
                let bat = battery(&self.uni.renamed(&f), Depth::Core);
                let seen = Seen { answers, state: self.state(&p, &bat) };
                for (t, a) in threads.iter().zip(&seen.answers) {
                    for (o, a) in t.iter().zip(a) {
                        if let Ans::Err(e) = a {
                            if self.rule != Rule::Full && e != "NotIndexed" {
                                return Err(format!("{} answered {}", optext(o), ans_text(a)));
                            }
                        }
                    }
                }
                match self.rule {
                    Rule::Consistent => {}
                    r => {
                        let same = |s: &Seen| match r {
                            Rule::Full => *s == seen,
                            _ => s.state == seen.state && creation_only(&threads, &s.answers) == creation_only(&threads, &seen.answers),
                        };
                        if !seqs.iter().any(|(o, s)| same(s) && times_allow(o, &times)) {
                            let other = seqs.iter().any(|(_, s)| same(s));
                            let mut t = String::from("the outcome is that of no order of the operations");
                            if other {
                                t += " that respects which had ended before which began";
                            }
                            let ans: Vec<String> = seen.answers.iter().map(|a| a.iter().map(ans_text).collect::<Vec<_>>().join(", ")).collect();
                            t += &format!("; answers: {}; state: {}", ans.join(" || "), state_text(&bat, &seen.state));
                            for (o, s) in seqs.iter().take(6) {
                                let ans: Vec<String> = s.answers.iter().map(|a| a.iter().map(ans_text).collect::<Vec<_>>().join(", ")).collect();
                                t += &format!("; order {o:?} gives answers: {}", ans.join(" || "));
                                if let Some(k) = (0..s.state.len()).find(|k| s.state[*k] != seen.state[*k]) {
                                    t += &format!(" and {} = {}", bat.get(k).map_or("image".into(), qtext), ans_text(&s.state[k]));
                                }
                            }
                            return Err(t);
                        }
                    }
                }
                if self.kind == Kind::Rocks {
                    self.consistent(&p, &threads)?;
                } else {
                    let uni = self.uni.renamed(&f);
                    if let Ok(m) = derived(&p.db, &[], &|_| true) {
                        env.state(model_hash(&m, &p.strip));
                    }
                    let _ = uni;
                }
                Ok(())
            });
            let judged = match judged {
                Ok(r) => r,
                Err(w) => Err(format!("panic afterwards: {w}")),
            };
            if let Err(w) = judged {
                let script: Vec<u16> = out.trace.iter().map(|c| c.chosen).collect();
                let pre = sched::preemptions(&out.trace);
                let steps: Vec<String> = out
                    .trace
                    .iter()
                    .filter(|c| c.chosen > 0)
                    .map(|c| c.what.to_string())
                    .collect();
                self.sess = None;
                return Err(fail(format!("under schedule {script:?} ({pre} preemptions, switching before: {}): {w}", steps.join(", "))));
            }
            if let Err(e) = self.clean(&p, true) {
                self.sess = None;
                return Err(fail(format!("under schedule {:?}: {e}", out.trace.iter().map(|c| c.chosen).collect::<Vec<_>>())));
            }
            match sched::next_script(&out.trace, self.bound) {
                Some(s) => script = s,
                None => break,
            }
        }
        Ok(())
    }
    fn close(&mut self) {
        self.drop_session();
    }
}

fn state_text(bat: &[Query], s: &[Ans]) -> String {
    bat.iter().zip(s).take(8).map(|(q, a)| format!("{} = {}", qtext(q), ans_text(a))).collect::<Vec<_>>().join(", ")
}

// ---- scenarios ---------------------------------------------------------------

fn cv(i: u128, t: &str) -> Op {
    Op::CreateVertex(id(i), t.into())
}
fn ce(a: u128, t: &str, b: u128) -> Op {
    Op::CreateEdge(id(a), t.into(), id(b))
}
fn key(a: u128, t: &str, b: u128) -> EKey {
    (id(a), t.into(), id(b))
}
fn sv(i: u128, v: &str) -> Op {
    Op::Set(q_v(id(i)), "p".into(), j(v))
}
fn bulk() -> Op {
    Op::Bulk(vec![
        BulkInsertItem::Vertex(vertex(id(1), "x")),
        BulkInsertItem::Vertex(vertex(id(2), "x")),
        BulkInsertItem::Edge(edge_of(&key(1, "t", 2))),
        BulkInsertItem::VertexProperty(id(1), ident("p"), j("3")),
        BulkInsertItem::EdgeProperty(edge_of(&key(1, "t", 2)), ident("p"), j("3")),
    ])
}

/// One insertion of very many elements: one that took them in portions would
/// let others in between.
fn bulk_of(n: u128, t: &str, v: &str) -> Op {
    let mut items = vec![];
    for i in 1..=n {
        items.push(BulkInsertItem::Vertex(vertex(id(i), t)));
    }
    for i in 1..=n {
        items.push(BulkInsertItem::Edge(edge_of(&key(i, "t", 1))));
        items.push(BulkInsertItem::VertexProperty(id(i), ident("p"), j(v)));
        items.push(BulkInsertItem::EdgeProperty(edge_of(&key(i, "t", 1)), ident("p"), j(v)));
    }
    Op::Bulk(items)
}

fn uni() -> Universe {
    Universe::new(&[1, 2], &["x", "y"], &["t"], &["p"], &["1", "2", "3"])
}

fn populated(indexed: bool) -> Vec<Op> {
    let mut v = vec![cv(1, "x"), cv(2, "x"), ce(1, "t", 2), sv(1, "1"), Op::Set(q_e(&key(1, "t", 2)), "p".into(), j("1"))];
    if indexed {
        v.push(Op::Index("p".into()));
    }
    v
}

/// Operations on single elements, and those that are one batch.
fn single() -> Vec<Op> {
    let e = key(1, "t", 2);
    vec![
        cv(1, "x"),
        cv(1, "y"),
        ce(1, "t", 2),
        ce(2, "t", 1),
        Op::Delete(q_v(id(1))),
        Op::Delete(q_v(id(2))),
        Op::Delete(q_e(&e)),
        sv(1, "1"),
        sv(1, "2"),
        Op::Set(q_e(&e), "p".into(), j("2")),
        Op::Delete(q_props(q_v(id(1)), Some("p"))),
        Op::Delete(q_props(q_e(&e), Some("p"))),
        Op::Index("p".into()),
        bulk(),
    ]
}

/// Operations on whatever a query selects.
fn multi() -> Vec<Op> {
    vec![
        Op::Delete(Query::AllVertex),
        Op::Delete(Query::AllEdge),
        Op::Set(Query::AllVertex, "p".into(), j("3")),
        Op::Set(Query::AllEdge, "p".into(), j("3")),
        Op::Delete(q_props(Query::AllVertex, None)),
        Op::Delete(q_pipe(q_v(id(1)), true, Some("t"), M)),
        Op::Set(q_pipe(q_pipe(q_v(id(1)), true, None, M), false, None, M), "p".into(), j("2")),
    ]
}

fn reads() -> Vec<Op> {
    vec![
        Op::Get(q_props(q_incl(Query::AllVertex), None)),
        Op::Get(q_pipe(q_incl(q_pipe(q_incl(Query::AllVertex), true, None, M)), false, None, M)),
        Op::Get(q_props(Query::AllEdge, Some("p"))),
        Op::Get(q_count(Query::AllEdge)),
        Op::Get(q_incl(q_veq("p", &j("1")))),
    ]
}

#[allow(clippy::too_many_arguments)]
fn conc(name: &str, kind: Kind, rule: Rule, bound: u32, init: Vec<Op>, ops: Vec<Op>, shape: &[usize], need: usize) -> Box<dyn Part> {
    let mut c = Conc {
        name: name.into(),
        kind,
        rule,
        bound,
        init,
        ops,
        shape: shape.to_vec(),
        sym: true,
        need,
        uni: uni(),
        list: None,
        sess: None,
    };
    c.enumerate();
    Box::new(c)
}

/// The same over the elements of `bulk_of`.
#[allow(clippy::too_many_arguments)]
fn many(name: &str, n: u128, kind: Kind, rule: Rule, bound: u32, init: Vec<Op>, ops: Vec<Op>, shape: &[usize]) -> Box<dyn Part> {
    let mut c = Conc {
        name: format!("{name}, {n} elements"),
        kind,
        rule,
        bound,
        init,
        ops,
        shape: shape.to_vec(),
        sym: true,
        need: 0,
        uni: Universe::new(&[1, n / 2, n], &["x", "y"], &["t"], &["p"], &["1", "2", "3"]),
        list: None,
        sess: None,
    };
    c.enumerate();
    Box::new(c)
}

const ALL: u32 = u32::MAX;

pub fn c19(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    let mut ops = single();
    ops.extend(multi());
    ops.extend(reads());
    let inits = [("new", vec![]), ("populated", populated(false)), ("indexed", populated(true))];
    for (n, init) in &inits {
        p.push(conc(&format!("memory, {n}"), Kind::Mem, Rule::Full, ALL, init.clone(), ops.clone(), &[1, 1], 0));
        if t || *n == "indexed" {
            p.push(conc(&format!("memory, {n}"), Kind::Mem, Rule::Full, if t { ALL } else { 3 }, init.clone(), ops.clone(), &[1, 1, 1], 0));
            p.push(conc(&format!("memory, {n}"), Kind::Mem, Rule::Full, ALL, init.clone(), ops.clone(), &[2, 1], 0));
        }
    }
    let few: Vec<Op> = vec![
        cv(1, "x"), ce(1, "t", 2), Op::Delete(q_v(id(1))), sv(1, "2"), Op::Delete(Query::AllVertex), Op::Set(Query::AllVertex, "p".into(), j("3")),
        Op::Index("p".into()), bulk(), reads().remove(0),
    ];
    for (n, init) in &inits[..if t { 3 } else { 2 }] {
        p.push(conc(&format!("memory-few, {n}"), Kind::Mem, Rule::Full, ALL, init.clone(), few.clone(), &[2, 2], 0));
        if t {
            p.push(conc(&format!("memory-few, {n}"), Kind::Mem, Rule::Full, ALL, init.clone(), few.clone(), &[2, 1, 1], 0));
            p.push(conc(&format!("memory-few, {n}"), Kind::Mem, Rule::Full, ALL, init.clone(), few.clone(), &[1, 1, 1, 1], 0));
            p.push(conc(&format!("memory-few, {n}"), Kind::Mem, Rule::Full, ALL, init.clone(), few.clone(), &[3, 2], 0));
        }
    }
    if t {
        p.push(conc("memory, indexed", Kind::Mem, Rule::Full, ALL, populated(true), ops.clone(), &[2, 2], 0));
    }
    // Very many elements at a time.
    for n in if t { vec![130, 1100, 5001] } else { vec![1100] } {
        let ops = vec![
            bulk_of(n, "y", "2"),
            Op::Set(Query::AllVertex, "p".into(), j("3")),
            Op::Set(Query::AllEdge, "p".into(), j("3")),
            Op::Delete(Query::AllVertex),
            Op::Delete(q_props(Query::AllEdge, None)),
            Op::Delete(q_v(id(1))),
            Op::Index("p".into()),
            Op::Get(q_props(q_incl(Query::AllVertex), None)),
            Op::Get(q_pipe(q_incl(Query::AllVertex), true, None, M)),
            Op::Get(q_count(Query::AllEdge)),
        ];
        p.push(many("memory-many, new", n, Kind::Mem, Rule::Full, ALL, vec![], ops.clone(), &[1, 1]));
        p.push(many("memory-many, populated", n, Kind::Mem, Rule::Full, ALL, vec![bulk_of(n, "x", "1")], ops.clone(), &[1, 1]));
    }
    // Syncs among them.
    let mut ops = few;
    ops.push(Op::Sync);
    let last = ops.len() - 1;
    let mut init = populated(true);
    init.push(Op::Sync);
    p.push(conc("memory with image", Kind::MemFile, Rule::Full, ALL, init.clone(), ops.clone(), &[1, 1], last));
    p.push(conc("memory with image", Kind::MemFile, Rule::Full, ALL, init.clone(), ops.clone(), &[1, 1, 1], last));
    if t {
        p.push(conc("memory with image", Kind::MemFile, Rule::Full, ALL, init, ops, &[2, 2], last));
    }
    p
}

pub fn c20(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    let mut two = vec![cv(2, "x")];
    two.push(sv(2, "1"));
    let inits = [("one vertex", two), ("populated", populated(false)), ("indexed", populated(true))];
    let ops = single();
    let mut weak = single();
    let need = weak.len();
    weak.extend(multi());
    weak.extend(reads());
    weak.push(Op::Sync);
    for (n, init) in &inits {
        p.push(conc(&format!("rocksdb, {n}"), Kind::Rocks, Rule::Writes, if t { 5 } else { 3 }, init.clone(), ops.clone(), &[1, 1], 0));
        p.push(conc(&format!("rocksdb-queries, {n}"), Kind::Rocks, Rule::Consistent, if t { 4 } else { 2 }, init.clone(), weak.clone(), &[1, 1], need));
    }
    let few: Vec<Op> = vec![
        cv(1, "y"), ce(1, "t", 2), Op::Delete(q_v(id(1))), Op::Delete(q_e(&key(1, "t", 2))), sv(1, "2"),
        Op::Set(q_e(&key(1, "t", 2)), "p".into(), j("2")), Op::Delete(q_props(q_v(id(1)), Some("p"))), Op::Index("p".into()),
    ];
    for (n, init) in &inits {
        if t || *n != "populated" {
            p.push(conc(&format!("rocksdb-few, {n}"), Kind::Rocks, Rule::Writes, if t { 3 } else { 2 }, init.clone(), few.clone(), &[2, 1], 0));
            p.push(conc(&format!("rocksdb-few, {n}"), Kind::Rocks, Rule::Writes, if t { 3 } else { 2 }, init.clone(), few.clone(), &[1, 1, 1], 0));
        }
    }
    // Very many elements at a time.
    for n in if t { vec![70, 130, 300] } else { vec![70] } {
        for indexed in [false, true] {
            // With an index, each element takes several steps.
            let (m, n) = if indexed { ("indexed", n / 4) } else { ("new", n) };
            let ops = vec![bulk_of(n, "x", "1"), bulk_of(n, "y", "2"), cv(1, "x"), cv(n, "y"), ce(n, "t", 1), Op::Index("p".into())];
            let init = if indexed { vec![bulk_of(n, "x", "3"), Op::Index("p".into())] } else { vec![] };
            p.push(many(&format!("rocksdb-many, {m}"), n, Kind::Rocks, Rule::Writes, 1, init, ops.clone(), &[1, 1]));
        }
    }
    p
}
