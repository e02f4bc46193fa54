//! Sequential exploration: every operation sequence of a scope, replayed on
//! the real stores and compared with the reference model.

use crate::model::*;
use crate::observe::*;
use crate::ops::*;
use crate::run::{Env, Fail, Part};
use crate::universe::Universe;
use indradb::{BulkInsertItem, Database, MemoryDatastore, Query, RocksdbDatastore};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, VecDeque};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Store {
    Mem,
    /// The in-memory store with an image file; `Reopen` reads the image.
    MemFile,
    Rocks,
    /// Over the network, served from an in-memory or a RocksDB store.
    NetMem,
    NetRocks,
    /// By transactions of the store, without the database: one for each
    /// operation, or one for as long as possible.
    TxnMem,
    TxnRocks,
    LongTxnMem,
    LongTxnRocks,
    /// A database over a datastore of the harness's own.
    Own,
}
impl Store {
    pub fn served(self) -> bool {
        !matches!(self, Store::Mem | Store::MemFile | Store::Rocks)
    }
    pub fn on_disk(self) -> bool {
        matches!(self, Store::Rocks | Store::NetRocks | Store::TxnRocks | Store::LongTxnRocks)
    }
}

/// A database reached over the network (or in another roundabout way), and the
/// database itself.
pub trait Served: Handle {
    fn beneath(&self) -> &dyn Handle;
    /// Looks at everything in the roundabout way's own terms.
    fn inspect(&self, _: &Model, _: &Universe) -> Result<u64, String> {
        Ok(0)
    }
}

pub struct Net<'a>(pub &'a dyn Served);
impl Handle for Net<'_> {
    fn run(&self, op: &Op) -> Ans {
        self.0.run(op)
    }
    fn ask(&self, q: Query) -> Result<Vec<indradb::QueryOutputValue>, String> {
        self.0.ask(q)
    }
}

/// How to serve a new store (set by the crate that can).
pub static SERVE: std::sync::OnceLock<fn(Store, &std::path::Path) -> Result<Box<dyn Served>, String>> = std::sync::OnceLock::new();

pub enum AnyDb {
    Mem(Database<MemoryDatastore>),
    Rocks(Database<RocksdbDatastore>),
    Net(Box<dyn Served>),
    Closed,
}

#[macro_export]
macro_rules! with_db {
    ($any:expr, $db:ident => $e:expr) => {
        match $any {
            $crate::explore::AnyDb::Mem($db) => $e,
            $crate::explore::AnyDb::Rocks($db) => $e,
            $crate::explore::AnyDb::Net($db) => {
                let served = $crate::explore::Net(&**$db);
                let $db = &served;
                $e
            }
            $crate::explore::AnyDb::Closed => panic!("store is closed"),
        }
    };
}

/// A live store, with its place on disk.
pub struct Live {
    pub store: Store,
    pub path: PathBuf,
    pub db: AnyDb,
}

pub fn open_rocks(path: &std::path::Path) -> Result<Database<RocksdbDatastore>, String> {
    RocksdbDatastore::new_db(path).map_err(|e| format!("opening the store failed: {e}"))
}

/// Options far from the defaults.
pub fn custom_options() -> rocksdb::Options {
    let mut o = rocksdb::Options::default();
    o.create_if_missing(true);
    o.set_write_buffer_size(64 * 1024);
    o.set_max_write_buffer_number(2);
    o.set_level_zero_file_num_compaction_trigger(2);
    o.set_max_open_files(20);
    o.set_allow_mmap_reads(true);
    o
}

impl Live {
    pub fn fresh(store: Store, env: &mut Env) -> Result<Live, String> {
        let path = env.fresh_path();
        let db = match store {
            Store::Mem => AnyDb::Mem(MemoryDatastore::new_db()),
            Store::MemFile => AnyDb::Mem(MemoryDatastore::create_msgpack_db(path.join("image"))),
            Store::Rocks => AnyDb::Rocks(open_rocks(&path)?),
            _ => AnyDb::Net(SERVE.get().expect("nothing to serve with")(store, &path)?),
        };
        if store == Store::MemFile {
            std::fs::create_dir_all(&path).map_err(|e| e.to_string())?;
        }
        Ok(Live { store, path, db })
    }
    pub fn reopen(&mut self) -> Result<(), String> {
        match self.store {
            Store::Mem => {}
            Store::MemFile => {
                self.db = AnyDb::Closed;
                let db = MemoryDatastore::read_msgpack_db(self.path.join("image"))
                    .map_err(|e| format!("reading the image failed: {e}"))?;
                self.db = AnyDb::Mem(db);
            }
            Store::Rocks => {
                self.db = AnyDb::Closed;
                self.db = AnyDb::Rocks(open_rocks(&self.path)?);
            }
            _ if !self.store.on_disk() => {}
            _ => {
                self.db = AnyDb::Closed;
                self.db = AnyDb::Net(SERVE.get().unwrap()(self.store, &self.path)?);
            }
        }
        Ok(())
    }
    /// Closes the RocksDB store and opens it in one of the ways of `WAYS`.
    pub fn reopen_as(&mut self, way: usize) -> Result<(), String> {
        if self.store != Store::Rocks {
            return self.reopen();
        }
        self.db = AnyDb::Closed;
        let p = &self.path;
        let with = |o: &rocksdb::Options| {
            RocksdbDatastore::new_db_with_options(p, o).map_err(|e| format!("opening the store failed: {e}"))
        };
        let repair = || RocksdbDatastore::repair(p, &RocksdbDatastore::get_options(None)).map_err(|e| format!("repair failed: {e}"));
        let db = match way {
            0 => open_rocks(p)?,
            1 => with(&RocksdbDatastore::get_options(None))?,
            2 => with(&RocksdbDatastore::get_options(Some(16)))?,
            3 => with(&rocksdb::Options::default())?,
            4 => with(&custom_options())?,
            5 => {
                repair()?;
                open_rocks(p)?
            }
            6 => {
                repair()?;
                with(&custom_options())?
            }
            7 => {
                repair()?;
                repair()?;
                open_rocks(p)?
            }
            _ => {
                drop(open_rocks(p)?);
                open_rocks(p)?
            }
        };
        self.db = AnyDb::Rocks(db);
        Ok(())
    }
    pub fn get(&self, q: &Query) -> Ans {
        with_db!(&self.db, db => get(db, q))
    }
    pub fn check(&self, m: &Model, bat: &[Query]) -> Result<u64, String> {
        let n = with_db!(&self.db, db => check_state(db, m, bat))?;
        if let AnyDb::Net(db) = &self.db {
            check_state(db.beneath(), m, bat).map_err(|e| format!("in the database itself: {e}"))?;
        }
        Ok(n)
    }
    pub fn inspect(&self, m: &Model, uni: &Universe) -> Result<u64, String> {
        match &self.db {
            AnyDb::Net(db) => db.inspect(m, uni),
            _ => Ok(0),
        }
    }
}

impl Drop for Live {
    fn drop(&mut self) {
        self.db = AnyDb::Closed;
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

/// The model along a run: with the state at the last sync, for image files.
#[derive(Clone, Default)]
pub struct Track {
    pub m: Model,
    pub synced: Option<Model>,
}

/// Performs one operation on the store and the model; the answers must agree.
pub fn step(live: &mut Live, t: &mut Track, op: &Op) -> Result<(), String> {
    if let Op::Reopen = op {
        live.reopen()?;
        if live.store == Store::MemFile {
            t.m = t.synced.clone().ok_or("harness: reopen before sync")?;
        }
        return Ok(());
    }
    if let Op::ReopenAs(w) = op {
        return live.reopen_as(*w);
    }
    if let Op::Get(q) = op {
        return with_db!(&live.db, db => check_query(db, &t.m, q));
    }
    let got = with_db!(&live.db, db => apply(db, op));
    let want = with_db!(&live.db, db => apply_model(&mut t.m, op, db))?;
    if got != want {
        return Err(format!("{} answered {}, expected {}", optext(op), ans_text(&got), ans_text(&want)));
    }
    if let Op::Sync = op {
        t.synced = Some(t.m.clone());
    }
    Ok(())
}

pub fn model_hash(m: &Model, strip: &str) -> u64 {
    let mut h = DefaultHasher::new();
    let s = |n: &str| n.strip_prefix(strip).unwrap_or(n).to_string();
    m.vertices.hash(&mut h);
    m.edges.hash(&mut h);
    for ((i, n), v) in &m.vprops {
        (i, s(n), v).hash(&mut h);
    }
    for ((i, n), v) in &m.eprops {
        (i, s(n), v).hash(&mut h);
    }
    for n in &m.indexed {
        s(n).hash(&mut h);
    }
    for ((i, n), v) in &m.orphan_v {
        (1, i, s(n), v).hash(&mut h);
    }
    for ((i, n), v) in &m.orphan_e {
        (2, i, s(n), v).hash(&mut h);
    }
    h.finish()
}

#[derive(Clone)]
pub struct Scope {
    pub name: String,
    pub store: Store,
    /// Performed first in every sequence.
    pub prefix: Vec<Op>,
    pub alphabet: Vec<Op>,
    pub uni: Universe,
    pub observe: Depth,
    /// Observe only at the end of sequences.
    pub end_only: bool,
    /// A new store for every sequence (RocksDB): names cannot be renamed.
    pub fresh: bool,
    /// Reopen this store this often between sequences (RocksDB sessions).
    pub reopen_every: u64,
}

impl Scope {
    pub fn new(name: &str, store: Store, alphabet: Vec<Op>, uni: Universe) -> Self {
        Scope {
            name: format!("{name}/{store:?}"),
            store,
            prefix: vec![],
            alphabet,
            uni,
            observe: Depth::Full,
            end_only: false,
            fresh: false,
            reopen_every: 250,
        }
    }
}

fn dangling(ops: &[Op]) -> bool {
    ops.iter().any(|o| matches!(o, Op::Bulk(_)))
}

/// One long-lived RocksDB store used for many sequences, cleaned in between
/// through its own operations.
#[derive(Default)]
pub struct Session {
    live: Option<Live>,
    seqs: u64,
    past: Vec<u64>,
}

const SESSION_MAX: u64 = 1000;

/// A sequence with the points after which everything is observed.
pub struct Seq<'a> {
    pub ops: Vec<Op>,
    pub watch: Vec<bool>,
    pub uni: &'a Universe,
    pub depth: Depth,
}

/// Runs a sequence. `Err((k, what))`: it failed at step k.
pub fn run_seq(live: &mut Live, seq: &Seq, strip: &str, env: &mut Env) -> Result<Track, (usize, String)> {
    let mut t = Track::default();
    let bat = battery(seq.uni, seq.depth);
    for (k, op) in seq.ops.iter().enumerate() {
        step(live, &mut t, op).map_err(|e| (k, e))?;
        env.count("operations replayed on the implementation", 1);
        if seq.watch[k] {
            let mut n = live.inspect(&t.m, seq.uni).map_err(|e| (k, e))?;
            n += live.check(&t.m, &bat).map_err(|e| (k, e))?;
            if let (Store::MemFile, Some(m)) = (live.store, &t.synced) {
                // What the image holds right now.
                let db = MemoryDatastore::read_msgpack_db(live.path.join("image"))
                    .map_err(|e| (k, format!("reading the image failed: {e}")))?;
                n += check_state(&db, m, &bat).map_err(|e| (k, format!("in the image: {e}")))?;
                env.count("images loaded", 1);
            }
            env.count("queries compared", n);
            env.count("states observed", 1);
            env.state(model_hash(&t.m, strip));
        }
    }
    Ok(t)
}

fn reset(live: &mut Live, t: &mut Track, uni: &Universe, deep: bool) -> Result<(), String> {
    if deep {
        let mut items = vec![];
        for i in &uni.ids {
            items.push(BulkInsertItem::Vertex(vertex(*i, "reset")));
        }
        for a in &uni.ids {
            for ty in &uni.etypes {
                for b in &uni.ids {
                    items.push(BulkInsertItem::Edge(edge_of(&(*a, ty.clone(), *b))));
                }
            }
        }
        with_db!(&live.db, db => apply(db, &Op::Bulk(items)));
    }
    for q in [Query::AllEdge, Query::AllVertex] {
        match with_db!(&live.db, db => apply(db, &Op::Delete(q))) {
            Ans::Ok => {}
            a => return Err(format!("deleting everything answered {}", ans_text(&a))),
        }
    }
    let empty = Model { indexed: t.m.indexed.clone(), ..Model::default() };
    let mut bat = vec![Query::AllVertex, Query::AllEdge, q_count(Query::AllVertex), q_count(Query::AllEdge)];
    for n in &uni.names {
        bat.push(q_vhas(n));
        bat.push(q_ehas(n));
    }
    live.check(&empty, &bat).map_err(|e| format!("after deleting everything: {e}"))?;
    t.m = empty;
    Ok(())
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    crate::run::catch(f)
}

/// Runs a sequence in the way the scope asks for; failures are confirmed on a
/// store of their own.
pub fn run_case(
    scope: &Scope,
    sess: &mut Session,
    i: u64,
    ops: &[Op],
    watch: &[bool],
    env: &mut Env,
) -> Result<(), Fail> {
    let direct = |env: &mut Env| -> Result<(), (usize, String)> {
        let mut live = Live::fresh(scope.store, env).map_err(|e| (0, e))?;
        let seq = Seq { ops: ops.to_vec(), watch: watch.to_vec(), uni: &scope.uni, depth: scope.observe };
        match catch(|| run_seq(&mut live, &seq, "", env)) {
            Ok(r) => r.map(|_| ()),
            Err(p) => Err((ops.len() - 1, format!("panic: {p}"))),
        }
    };
    let report = |k: usize, what: String| {
        let text = optexts(&ops[..=k.min(ops.len() - 1)]);
        Fail::new(&format!("{} | {}", scope.name, text), format!("[{}] after {}: {}", scope.name, text, what))
    };
    env.count("sequences replayed", 1);
    if matches!(scope.store, Store::Mem | Store::MemFile | Store::TxnMem | Store::LongTxnMem | Store::Own) || scope.fresh {
        return direct(env).map_err(|(k, w)| report(k, w));
    }
    if sess.live.is_none() || sess.seqs >= SESSION_MAX {
        sess.live = None;
        sess.live = Some(Live::fresh(scope.store, env).map_err(|e| Fail::new(&format!("{} | open", scope.name), e))?);
        sess.seqs = 0;
        sess.past.clear();
    }
    let live = sess.live.as_mut().unwrap();
    let strip = format!("{}-", sess.seqs);
    let f = |n: &str| format!("{strip}{n}");
    let uni = scope.uni.renamed(&f);
    let rops: Vec<Op> = ops.iter().map(|o| rename_op(o, &f)).collect();
    let seq = Seq { ops: rops, watch: watch.to_vec(), uni: &uni, depth: scope.observe };
    sess.past.push(i);
    sess.seqs += 1;
    let r = catch(|| -> Result<(), (usize, String)> {
        let mut t = run_seq(live, &seq, &strip, env)?;
        reset(live, &mut t, &uni, dangling(ops)).map_err(|e| (ops.len() - 1, e))?;
        if scope.reopen_every > 0 && sess.seqs % scope.reopen_every == 0 {
            live.reopen().map_err(|e| (ops.len() - 1, e))?;
            env.count("stores closed and reopened", 1);
        }
        Ok(())
    });
    let r = match r {
        Ok(r) => r,
        Err(p) => Err((ops.len() - 1, format!("panic: {p}"))),
    };
    if let Err((k, w)) = r {
        let past = sess.past.clone();
        sess.live = None;
        // On its own?
        let all = vec![true; ops.len()];
        for wt in [watch, &all[..]] {
            let mut live = Live::fresh(scope.store, env).map_err(|e| Fail::new("open", e))?;
            let seq = Seq { ops: ops.to_vec(), watch: wt.to_vec(), uni: &scope.uni, depth: scope.observe };
            let r = match catch(|| {
                let mut t = run_seq(&mut live, &seq, "", env)?;
                reset(&mut live, &mut t, &scope.uni, dangling(ops)).map_err(|e| (ops.len() - 1, e))
            }) {
                Ok(r) => r,
                Err(p) => Err((ops.len() - 1, format!("panic: {p}"))),
            };
            if let Err((k, w)) = r {
                return Err(report(k, w));
            }
        }
        let mut f = report(k, w);
        f.what = format!("{} (on a store that had carried out {} sequences before, each deleted again)", f.what, past.len() - 1);
        f.session = past;
        return Err(f);
    }
    Ok(())
}

/// All sequences of exactly `depth` operations; each prefix is observed the
/// first time it is reached.
pub struct Tree {
    pub scope: Scope,
    pub depth: usize,
    pub sess: Session,
}

impl Tree {
    pub fn new(scope: Scope, depth: usize) -> Box<dyn Part> {
        Box::new(Tree { scope, depth, sess: Session::default() })
    }
    fn digits(&self, mut i: u64) -> Vec<usize> {
        let n = self.scope.alphabet.len() as u64;
        let mut d = vec![0; self.depth];
        for k in (0..self.depth).rev() {
            d[k] = (i % n) as usize;
            i /= n;
        }
        d
    }
}

impl Part for Tree {
    fn name(&self) -> String {
        format!("tree:{}:{}ops^{}", self.scope.name, self.scope.alphabet.len(), self.depth)
    }
    fn len(&self) -> u64 {
        (self.scope.alphabet.len() as u64).pow(self.depth as u32)
    }
    fn text(&self, i: u64) -> String {
        let ops: Vec<Op> = self.digits(i).iter().map(|d| self.scope.alphabet[*d].clone()).collect();
        let pre = if self.scope.prefix.is_empty() { String::new() } else { format!("({}) ", optexts(&self.scope.prefix)) };
        format!("{pre}{}", optexts(&ops))
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let d = self.digits(i);
        let mut ops = self.scope.prefix.clone();
        let mut watch = vec![false; ops.len()];
        if i == 0 && !watch.is_empty() {
            *watch.last_mut().unwrap() = true;
        }
        for (k, x) in d.iter().enumerate() {
            ops.push(self.scope.alphabet[*x].clone());
            let first = d[k + 1..].iter().all(|y| *y == 0);
            watch.push(if self.scope.end_only { k + 1 == d.len() } else { first });
        }
        run_case(&self.scope, &mut self.sess, i, &ops, &watch, env)
    }
    fn close(&mut self) {
        self.sess.live = None;
    }
}

/// Breadth-first search over model states up to a depth; every transition of
/// that state graph is replayed, each along up to `ways` different paths.
pub struct Graph {
    pub scope: Scope,
    pub depth: usize,
    pub jobs: Vec<Vec<u16>>,
    pub states: usize,
    pub sess: Session,
}

struct NoAsk<'a>(&'a Model);
impl Ask for NoAsk<'_> {
    fn vertex_type(&self, id: uuid::Uuid) -> Result<Option<String>, String> {
        Ok(self.0.vertices.get(&id).cloned())
    }
    fn edge_exists(&self, _: &EKey) -> Result<bool, String> {
        Ok(false)
    }
    fn vprop(&self, _: uuid::Uuid, _: &str) -> Result<Option<Val>, String> {
        Ok(None)
    }
    fn eprop(&self, _: &EKey, _: &str) -> Result<Option<Val>, String> {
        Ok(None)
    }
}

/// The model's own successor state; where the answer is open, the plainest.
pub fn model_step(t: &Track, op: &Op) -> Track {
    let mut n = t.clone();
    match op {
        Op::ReopenAs(_) => {}
        Op::Reopen => {
            if let Some(s) = &t.synced {
                n.m = s.clone();
            }
        }
        _ => {
            let before = t.m.clone();
            // The plainest answers: keep old types, no dangling edges.
            let mut m = n.m.clone();
            let _ = apply_model(&mut m, op, &NoAsk(&before));
            n.m = m;
            if let Op::Sync = op {
                n.synced = Some(n.m.clone());
            }
        }
    }
    n
}

/// The transitions of the model's state graph up to a depth, each along up to
/// `ways` paths; and how many states there are.
pub fn graph_jobs(scope: &Scope, depth: usize, ways: usize) -> (Vec<Vec<u16>>, usize) {
    let mut start = Track::default();
    for o in &scope.prefix {
        start = model_step(&start, o);
    }
    let key = |t: &Track| {
        let mut h = DefaultHasher::new();
        t.m.hash(&mut h);
        t.synced.hash(&mut h);
        h.finish()
    };
    // state -> paths kept
    let mut seen: HashMap<u64, usize> = HashMap::new();
    let mut queue: VecDeque<(Track, Vec<u16>)> = VecDeque::new();
    seen.insert(key(&start), 1);
    queue.push_back((start, vec![]));
    let mut jobs = vec![];
    let mut states = 1;
    while let Some((t, path)) = queue.pop_front() {
        if path.len() == depth {
            continue;
        }
        for (a, op) in scope.alphabet.iter().enumerate() {
            let mut p = path.clone();
            p.push(a as u16);
            let n = model_step(&t, op);
            let k = key(&n);
            let c = seen.entry(k).or_insert(0);
            if *c == 0 {
                states += 1;
            }
            if *c < ways {
                *c += 1;
                queue.push_back((n, p.clone()));
            }
            jobs.push(p);
        }
    }
    (jobs, states)
}

impl Graph {
    pub fn new(scope: Scope, depth: usize, ways: usize) -> Box<dyn Part> {
        let (jobs, states) = graph_jobs(&scope, depth, ways);
        Box::new(Graph { scope, depth, jobs, states, sess: Session::default() })
    }
}

impl Part for Graph {
    fn name(&self) -> String {
        format!("graph:{}:{}ops,depth {},{} states", self.scope.name, self.scope.alphabet.len(), self.depth, self.states)
    }
    fn len(&self) -> u64 {
        self.jobs.len() as u64
    }
    fn text(&self, i: u64) -> String {
        let ops: Vec<Op> = self.jobs[i as usize].iter().map(|d| self.scope.alphabet[*d as usize].clone()).collect();
        optexts(&ops)
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let mut ops = self.scope.prefix.clone();
        ops.extend(self.jobs[i as usize].iter().map(|d| self.scope.alphabet[*d as usize].clone()));
        let mut watch = vec![false; ops.len()];
        *watch.last_mut().unwrap() = true;
        env.count("model transitions replayed", 1);
        run_case(&self.scope, &mut self.sess, i, &ops, &watch, env)
    }
    fn close(&mut self) {
        self.sess.live = None;
    }
}

/// A given list of sequences, each observed after every step.
pub struct Listed {
    pub scope: Scope,
    pub seqs: Vec<Vec<Op>>,
    pub sess: Session,
}
impl Listed {
    pub fn new(scope: Scope, seqs: Vec<Vec<Op>>) -> Box<dyn Part> {
        Box::new(Listed { scope, seqs, sess: Session::default() })
    }
}
impl Part for Listed {
    fn name(&self) -> String {
        format!("list:{}:{}", self.scope.name, self.seqs.len())
    }
    fn len(&self) -> u64 {
        self.seqs.len() as u64
    }
    fn text(&self, i: u64) -> String {
        optexts(&self.seqs[i as usize])
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let mut ops = self.scope.prefix.clone();
        let pre = ops.len();
        ops.extend(self.seqs[i as usize].iter().cloned());
        let n = ops.len();
        let watch: Vec<bool> = (0..n).map(|k| if self.scope.end_only { k + 1 == n } else { k + 1 >= pre }).collect();
        run_case(&self.scope, &mut self.sess, i, &ops, &watch, env)
    }
    fn close(&mut self) {
        self.sess.live = None;
    }
}

/// Cases given by a closure.
pub struct Cases<F: FnMut(u64, &mut Env) -> Result<(), Fail>, T: Fn(u64) -> String> {
    pub name: String,
    pub n: u64,
    pub f: F,
    pub t: T,
}
impl<F: FnMut(u64, &mut Env) -> Result<(), Fail>, T: Fn(u64) -> String> Part for Cases<F, T> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn text(&self, i: u64) -> String {
        (self.t)(i)
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        (self.f)(i, env)
    }
    fn close(&mut self) {}
}
pub fn cases<F, T>(name: &str, n: u64, f: F, t: T) -> Box<dyn Part>
where
    F: FnMut(u64, &mut Env) -> Result<(), Fail> + 'static,
    T: Fn(u64) -> String + 'static,
{
    Box::new(Cases { name: name.to_string(), n, f, t })
}
