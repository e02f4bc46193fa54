//! C33: several stores in one process (and several processes in one
//! directory) do not affect each other; handles on one store show one store.

use crate::txn::perform;
use indradb::{Database, Datastore, MemoryDatastore, Query, QueryOutputValue, RocksdbDatastore};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{catch, Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use std::collections::HashMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc::{channel, Sender};
use std::sync::Arc;

type Parts = Vec<Box<dyn Part>>;

// ---- Threads that do what they are told, one at a time --------------------------

type Job = Box<dyn FnOnce() + Send>;

struct Worker {
    tx: Option<Sender<Job>>,
    h: Option<std::thread::JoinHandle<()>>,
}

impl Worker {
    fn new() -> Worker {
        let (tx, rx) = channel::<Job>();
        let h = std::thread::spawn(move || {
            for j in rx {
                j();
            }
        });
        Worker { tx: Some(tx), h: Some(h) }
    }
    /// Runs `f` on this thread and waits for it.
    fn on<T: Send>(&self, f: impl FnOnce() -> T + Send) -> Result<T, String> {
        let (tx, rx) = channel();
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let _ = tx.send(catch(f));
        });
        // Nothing borrowed is used after this call returns.
        let job: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Job>(job) };
        self.tx.as_ref().unwrap().send(job).map_err(|e| e.to_string())?;
        rx.recv().map_err(|e| e.to_string())?.map_err(|p| format!("panic: {p}"))
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        self.tx.take();
        let _ = self.h.take().unwrap().join();
    }
}

// ---- Pairs of stores -------------------------------------------------------------

#[derive(Clone)]
enum Db {
    Mem(Arc<Database<MemoryDatastore>>),
    Rocks(Arc<Database<RocksdbDatastore>>),
    Closed,
}

impl Handle for Db {
    fn run(&self, op: &Op) -> Ans {
        match self {
            Db::Mem(d) => d.run(op),
            Db::Rocks(d) => d.run(op),
            Db::Closed => panic!("closed"),
        }
    }
    fn ask(&self, q: Query) -> Result<Vec<QueryOutputValue>, String> {
        match self {
            Db::Mem(d) => d.ask(q),
            Db::Rocks(d) => d.ask(q),
            Db::Closed => panic!("closed"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Mem,
    /// With an image.
    File,
    Rocks,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tie {
    /// Two stores, in one directory.
    Apart,
    /// Two stores that save to one image.
    SameImage,
    /// Two handles on one store.
    SameStore,
}

#[derive(Clone)]
struct World {
    name: &'static str,
    kinds: [Kind; 2],
    tie: Tie,
}

fn worlds() -> Vec<World> {
    use Kind::*;
    let w = |name, a, b, tie| World { name, kinds: [a, b], tie };
    vec![
        w("two in memory", Mem, Mem, Tie::Apart),
        w("two images", File, File, Tie::Apart),
        w("two images, in two directories", File, File, Tie::Apart),
        w("one image", File, File, Tie::SameImage),
        w("two handles", Mem, Mem, Tie::SameStore),
        w("two handles, image", File, File, Tie::SameStore),
        w("two on disk", Rocks, Rocks, Tie::Apart),
        w("two on disk, in two directories", Rocks, Rocks, Tie::Apart),
        w("memory and disk", Mem, Rocks, Tie::Apart),
        w("image and disk", File, Rocks, Tie::Apart),
        w("two handles, disk", Rocks, Rocks, Tie::SameStore),
    ]
}

struct Pair {
    w: World,
    dir: PathBuf,
    dbs: [Db; 2],
    ms: [Model; 2],
    /// What is in the images.
    images: [Option<Model>; 2],
}

impl Pair {
    /// Which model (or image) is that of this side.
    fn of(&self, side: usize) -> usize {
        if self.w.tie == Tie::SameStore { 0 } else { side }
    }
    fn img(&self, side: usize) -> usize {
        if self.w.tie == Tie::Apart { side } else { 0 }
    }
    fn place(&self, side: usize) -> PathBuf {
        // One name but for its last part, or one name in two directories.
        self.dir.join(if self.w.name.contains("directories") { ["x/g", "y/g"] } else { ["g.a", "g.b"] }[self.img(side)])
    }
    fn open(&mut self, side: usize) -> Result<(), String> {
        if self.w.tie == Tie::SameStore && !matches!(self.dbs[1 - side], Db::Closed) {
            self.dbs[side] = match &self.dbs[1 - side] {
                Db::Mem(d) => Db::Mem(Arc::new(Database::new(d.datastore.clone()))),
                d => d.clone(),
            };
            return Ok(());
        }
        let k = self.of(side);
        let image = self.images[self.img(side)].clone();
        self.dbs[side] = match (self.w.kinds[side], image) {
            (Kind::Mem, _) => {
                self.ms[k] = Model::default();
                Db::Mem(Arc::new(MemoryDatastore::new_db()))
            }
            (Kind::File, None) => {
                self.ms[k] = Model::default();
                Db::Mem(Arc::new(MemoryDatastore::create_msgpack_db(self.place(side))))
            }
            (Kind::File, Some(m)) => {
                self.ms[k] = m;
                Db::Mem(Arc::new(MemoryDatastore::read_msgpack_db(self.place(side)).map_err(|e| format!("reading the image failed: {e}"))?))
            }
            (Kind::Rocks, _) => Db::Rocks(Arc::new(open_rocks(&self.place(side))?)),
        };
        Ok(())
    }
    fn fresh(w: &World, env: &mut Env) -> Result<Pair, String> {
        let dir = env.fresh_path();
        for d in ["x", "y"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        let mut p = Pair { w: w.clone(), dir, dbs: [Db::Closed, Db::Closed], ms: Default::default(), images: [None, None] };
        p.open(0)?;
        p.open(1)?;
        Ok(p)
    }
    fn step(&mut self, side: usize, op: &Op, at: &Worker) -> Result<(), String> {
        if let Op::Reopen = op {
            self.dbs[side] = Db::Closed;
            return self.open(side);
        }
        let db = self.dbs[side].clone();
        let got = at.on(|| db.run(op))?;
        let k = self.of(side);
        let want = apply_model(&mut self.ms[k], op, &db)?;
        if got != want {
            return Err(format!("it answered {}, expected {}", ans_text(&got), ans_text(&want)));
        }
        if matches!(op, Op::Sync) && self.w.kinds[side] == Kind::File {
            self.images[self.img(side)] = Some(self.ms[k].clone());
        }
        Ok(())
    }
    fn check(&self, at: &[Worker], bat: &[Query]) -> Result<u64, String> {
        let mut n = 0;
        for side in 0..2 {
            let (db, m) = (&self.dbs[side], &self.ms[self.of(side)]);
            for (k, t) in at.iter().enumerate() {
                n += t.on(|| check_state(db, m, bat))?.map_err(|e| format!("store {}, thread {}: {e}", ["A", "B"][side], k + 1))?;
            }
        }
        Ok(n)
    }
}

impl Pair {
    /// What is in the images, at the end.
    fn saved(&self, bat: &[Query]) -> Result<(), String> {
        for side in 0..2 {
            if let Some(m) = self.images[side].as_ref().filter(|_| self.img(side) == side) {
                let db = MemoryDatastore::read_msgpack_db(self.place(side)).map_err(|e| format!("image {} cannot be read: {e}", side + 1))?;
                check_state(&db, m, bat).map_err(|e| format!("image {}: {e}", side + 1))?;
            }
        }
        Ok(())
    }
}

impl Drop for Pair {
    fn drop(&mut self) {
        self.dbs = [Db::Closed, Db::Closed];
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn starts() -> [Vec<Op>; 2] {
    [
        vec![cv(1, "x"), cv(2, "x"), ce(1, "t", 2), sv(1, "p", "1"), se_((1, "t", 2), "p", "2"), index("p")],
        vec![cv(1, "y"), cv(2, "x"), cv(4, "y"), ce(2, "t", 1), sv(2, "p", "1"), se_((2, "t", 1), "q", "2"), index("q")],
    ]
}

fn uni() -> Universe {
    Universe::new(&[1, 2, 3, 4], &["x", "y"], &["t", "u"], &["p", "q"], &["1", "2", "3"])
}

fn alphabet(long: bool) -> Vec<Op> {
    let mut v = vec![
        Op::Reopen,
        Op::Sync,
        index("q"),
        sv(1, "p", "3"),
        dv(1),
        ce(2, "u", 1),
        Op::Bulk(vec![bv(3, "x"), be(3, "t", 1), bvp(2, "q", "1"), bep(2, "t", 1, "p", "3")]),
    ];
    if long {
        v.extend([cv(3, "y"), Op::Set(Query::AllEdge, "q".into(), j("1")), dvp(1, None), Op::Delete(Query::AllVertex), de(2, "t", 1)]);
    }
    v
}

/// Every sequence of `n` operations, each on either store and from either of
/// `threads` threads.
fn sequences(w: World, n: u32, threads: usize, long: bool) -> Box<dyn Part> {
    let ops = alphabet(long);
    let base = (ops.len() * 2 * threads) as u64;
    let decode = move |i: u64| -> Vec<(usize, usize, usize)> {
        (0..n)
            .scan(i, |i, _| {
                let d = (*i % base) as usize;
                *i /= base;
                Some((d / (2 * threads), d / threads % 2, d % threads))
            })
            .collect()
    };
    let show = {
        let ops = ops.clone();
        move |i: u64| decode(i).iter().map(|(o, s, t)| format!("{}{}: {}", ["A", "B"][*s], t + 1, optext(&ops[*o]))).collect::<Vec<_>>().join("; ")
    };
    let name = format!("{}, {n} operations, {threads} threads{}", w.name, if long { ", all kinds" } else { "" });
    let text = show.clone();
    cases(
        &name,
        base.pow(n),
        move |i, env| {
            let seq = decode(i);
            let f = |e: String| Fail::new(&format!("{}|{}", w.name, show(i)), format!("{}: {e}", show(i)));
            let at: Vec<Worker> = (0..threads).map(|_| Worker::new()).collect();
            let mut p = Pair::fresh(&w, env).map_err(f)?;
            let bat = battery(&uni(), if env.cfg.thorough { Depth::Full } else { Depth::Core });
            for (side, ops) in starts().iter().enumerate().take(if w.tie == Tie::SameStore { 1 } else { 2 }) {
                for op in ops {
                    p.step(side, op, &at[0]).map_err(|e| f(format!("at first, {} with store {}: {e}", optext(op), side + 1)))?;
                }
            }
            let mut n = p.check(&at, &bat).map_err(|e| f(format!("at first: {e}")))?;
            for (k, (o, s, t)) in seq.iter().enumerate() {
                p.step(*s, &ops[*o], &at[*t]).map_err(|e| f(format!("step {}: {e}", k + 1)))?;
                n += p.check(&at, &bat).map_err(|e| f(format!("after step {}: {e}", k + 1)))?;
            }
            p.saved(&bat).map_err(f)?;
            env.count("observations", n);
            env.count("sequences replayed", 1);
            env.count("transitions", seq.len() as u64);
            env.state(model_hash(&p.ms[0], "") ^ model_hash(&p.ms[1], "").rotate_left(7));
            Ok(())
        },
        text,
    )
}

/// What is done with one store while the other has a transaction open.
fn transactions(w: World) -> Box<dyn Part> {
    let ops: Vec<Op> = alphabet(true).into_iter().filter(|o| !matches!(o, Op::Reopen)).collect();
    let inside: Vec<Op> = vec![sv(1, "q", "2"), dv(2), index("q"), Op::Sync];
    let n = (ops.len() * (inside.len() + 1) * 2 * 2) as u64;
    let decode = {
        let l = inside.len() + 1;
        move |i: u64| {
            let i = i as usize;
            (i / (l * 4), i / 4 % l, i / 2 % 2, i % 2)
        }
    };
    let show = {
        let (ops, inside) = (ops.clone(), inside.clone());
        move |i: u64| {
            let (o, k, side, other) = decode(i);
            let did = if k == 0 { "which only read".into() } else { format!("which did {}", optext(&inside[k - 1])) };
            format!("{} with {} while {} has a transaction open {did}{}", optext(&ops[o]), ["B", "A"][side], ["A", "B"][side], if other == 1 { ", from another thread" } else { "" })
        }
    };
    let name = format!("{}, transactions open", w.name);
    let text = show.clone();
    fn with<D: Datastore + 'static>(db: &Database<D>, op: Option<&Op>, then: &mut dyn FnMut() -> Result<(), String>) -> Result<Option<Ans>, String> {
        // Everything of the transaction is dropped in here.
        let ds: &'static D = unsafe { &*(&db.datastore as *const D) };
        let mut t = ds.transaction();
        let n = indradb::Transaction::vertex_count(&t);
        let got = match op {
            Some(op) => Some(perform(&mut t, op)?),
            None => None,
        };
        then()?;
        let after = indradb::Transaction::vertex_count(&t);
        if op.is_none() && n != after {
            return Err(format!("the transaction saw {n} vertices, then {after}"));
        }
        Ok(got)
    }
    cases(
        &name,
        n,
        move |i, env| {
            let (o, k, side, other) = decode(i);
            let f = |e: String| Fail::new(&format!("{}|{}", w.name, show(i)), format!("{}: {e}", show(i)));
            let at = vec![Worker::new(), Worker::new()];
            let mut p = Pair::fresh(&w, env).map_err(f)?;
            let bat = battery(&uni(), Depth::Full);
            for (s, ops) in starts().iter().enumerate() {
                for op in ops {
                    p.step(s, op, &at[0]).map_err(f)?;
                }
            }
            let (a, b) = (p.dbs[side].clone(), p.dbs[1 - side].clone());
            let kb = p.of(1 - side);
            let mut mb = p.ms[kb].clone();
            let op = &ops[o];
            let own = if k == 0 { None } else { Some(&inside[k - 1]) };
            let mut then = || -> Result<(), String> {
                let mut go = || -> Result<(), String> {
                    let got = b.run(op);
                    let want = apply_model(&mut mb, op, &b)?;
                    if got != want {
                        return Err(format!("it answered {}, expected {}", ans_text(&got), ans_text(&want)));
                    }
                    check_state(&b, &mb, &bat).map(|_| ())
                };
                if other == 1 {
                    at[1].on(go)?
                } else {
                    go()
                }
            };
            let got = match &a {
                Db::Mem(d) => with(d, own, &mut then),
                Db::Rocks(d) => with(d, own, &mut then),
                Db::Closed => unreachable!(),
            }
            .map_err(f)?;
            p.ms[kb] = mb;
            let ka = p.of(side);
            if let (Some(got), Some(own)) = (got, own) {
                let want = apply_model(&mut p.ms[ka], own, &p.dbs[side]).map_err(f)?;
                if got != want {
                    return Err(f(format!("{} answered {}", optext(own), ans_text(&got))));
                }
            }
            let n = p.check(&at, &bat).map_err(|e| f(format!("afterwards: {e}")))?;
            env.count("observations", n);
            env.count("transitions", 2);
            Ok(())
        },
        text,
    )
}

/// Many stores at once.
fn crowd(mem: u128, rocks: u128, env: &mut Env) -> Result<(), String> {
    let dir = env.fresh_path();
    std::fs::create_dir_all(&dir).unwrap();
    let r = (|| {
        let mut all: Vec<(Db, Model)> = vec![];
        for k in 0..mem + rocks {
            let db = match k {
                _ if k >= mem => Db::Rocks(Arc::new(open_rocks(&dir.join(format!("r{k}")))?)),
                _ if k % 3 == 0 => Db::Mem(Arc::new(MemoryDatastore::create_msgpack_db(dir.join(format!("m{k}"))))),
                _ => Db::Mem(Arc::new(MemoryDatastore::new_db())),
            };
            all.push((db, Model::default()));
        }
        let u = |k: u128| Universe::new(&[1, 2, 3, k + 10], &["x", "y"], &["t"], &["p", "q", &format!("n{k}")], &["1", &k.to_string()]);
        let mut bats = vec![];
        for k in 0..all.len() as u128 {
            bats.push(battery(&u(k), Depth::Full));
        }
        let rounds: [&dyn Fn(u128) -> Vec<Op>; 4] = [
            &|k| vec![cv(1, ["x", "y"][k as usize % 2]), cv(k + 10, "x"), ce(1, "t", k + 10), sv(1, "p", &k.to_string()), index(["p", "q"][k as usize % 2])],
            &|k| vec![index(&format!("n{k}")), sv(k + 10, &format!("n{k}"), "1"), Op::Sync],
            &|k| vec![sv(1, "q", "1"), if k % 2 == 0 { dv(k + 10) } else { dvp(1, Some("p")) }],
            &|k| vec![Op::Bulk(vec![bv(3, "x"), be(3, "t", 1), bvp(3, "p", &k.to_string())]), Op::Sync],
        ];
        for (r, round) in rounds.iter().enumerate() {
            for (k, (db, m)) in all.iter_mut().enumerate() {
                for op in round(k as u128) {
                    let got = db.run(&op);
                    let want = apply_model(m, &op, db)?;
                    if got != want {
                        return Err(format!("store {k}: {} answered {}, expected {}", optext(&op), ans_text(&got), ans_text(&want)));
                    }
                    env.count("transitions", 1);
                }
            }
            for (k, (db, m)) in all.iter().enumerate() {
                let n = check_state(db, m, &bats[k]).map_err(|e| format!("store {k} after round {}: {e}", r + 1))?;
                env.count("observations", n);
            }
        }
        // Half of them are dropped; the images and the others are whole.
        for (k, (db, m)) in all.iter_mut().enumerate() {
            if k % 2 == 0 {
                *db = Db::Closed;
                if (k as u128) < mem && k % 3 == 0 {
                    let d = MemoryDatastore::read_msgpack_db(dir.join(format!("m{k}"))).map_err(|e| format!("image {k}: {e}"))?;
                    check_state(&d, m, &bats[k]).map_err(|e| format!("image {k}: {e}"))?;
                } else if k as u128 >= mem {
                    let d = open_rocks(&dir.join(format!("r{k}")))?;
                    check_state(&d, m, &bats[k]).map_err(|e| format!("store {k} opened again: {e}"))?;
                }
            }
        }
        for (k, (db, m)) in all.iter().enumerate() {
            if k % 2 == 1 {
                check_state(db, m, &bats[k]).map_err(|e| format!("store {k} after others were dropped: {e}"))?;
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// Opening a store that is open.
fn twice(way: u64, env: &mut Env) -> Result<(), String> {
    let dir = env.fresh_path();
    let r = (|| {
        let db = open_rocks(&dir)?;
        let mut m = Model::default();
        let bat = battery(&uni(), Depth::Full);
        let mut go = |db: &Database<RocksdbDatastore>, ops: &[Op]| -> Result<(), String> {
            for op in ops {
                let got = db.run(op);
                let want = apply_model(&mut m, op, db)?;
                if got != want {
                    return Err(format!("{} answered {}", optext(op), ans_text(&got)));
                }
            }
            check_state(db, &m, &bat).map(|_| ())
        };
        go(&db, &starts()[0])?;
        let second = || -> Result<(), String> {
            let r = match way {
                0 | 1 => RocksdbDatastore::new_db(&dir),
                _ => RocksdbDatastore::new_db_with_options(&dir, &RocksdbDatastore::get_options(None)),
            };
            match r {
                Ok(_) => Err("a store that is open was opened a second time".into()),
                Err(_) => Ok(()),
            }
        };
        for _ in 0..2 {
            if way == 1 {
                Worker::new().on(second)??;
            } else {
                second()?;
            }
            go(&db, &[sv(2, "p", "3"), ce(2, "u", 1), dvp(1, Some("p"))])?;
        }
        go(&db, &[cv(3, "y"), index("q")])?;
        drop(db);
        let db = open_rocks(&dir)?;
        go(&db, &[sv(3, "q", "1")])
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

// ---- Two syncs at once ------------------------------------------------------------

const CALLS: &[&str] = &["open", "write", "writev", "sendfile", "copy_file_range", "fallocate", "rename", "link", "unlink", "mkdir", "fsync", "truncate"];

#[derive(Clone, Copy, Debug)]
struct Meet {
    /// Both save to one image.
    one: bool,
    /// The images are in two directories.
    dirs: bool,
    /// There are images before.
    before: bool,
    large: [bool; 2],
    /// The other is a process of its own.
    process: bool,
}

fn meets(t: bool) -> Vec<Meet> {
    let mut v = vec![];
    for process in [false, true] {
        for one in [false, true] {
            for before in [true, false] {
                for large in [[false, false], [true, true], [true, false], [false, true]] {
                    for dirs in [false, true] {
                        if (!one || !dirs) && (t || large[0] == large[1] && before != large[0]) {
                            v.push(Meet { one, dirs, before, large, process });
                        }
                    }
                }
            }
        }
    }
    v
}

fn image(c: &Meet, side: usize) -> &'static str {
    let names = if c.dirs { ["x/g", "y/g"] } else { ["g.a", "g.b"] };
    names[if c.one { 0 } else { side }]
}

fn contents(c: &Meet, side: usize) -> Vec<Op> {
    let mut v = starts()[side].clone();
    if c.large[side] {
        v.push(Op::Set(q_v(id(2)), "q".into(), indradb::Json::new(serde_json::Value::from(["a", "b"][side].repeat(20_000)))));
    }
    v
}

fn model_of(c: &Meet, side: usize) -> Model {
    let db = MemoryDatastore::new_db();
    let mut m = Model::default();
    for op in contents(c, side) {
        let got = apply(&db, &op);
        assert!(apply_model(&mut m, &op, &db).unwrap() == got);
    }
    m
}

/// `meet CASE TIER` in the directory of the images.
pub fn child(args: &[String]) -> ! {
    let c = meets(args[1] == "t")[args[0].parse::<usize>().unwrap()];
    let path = move |side: usize| image(&c, side);
    let store = move |side: usize| {
        let db = MemoryDatastore::create_msgpack_db(path(side));
        for op in contents(&c, side) {
            apply(&db, &op);
        }
        db
    };
    let result = |side: usize, r: Result<Result<(), indradb::Error>, String>| {
        let s = match r {
            Ok(Ok(())) => "OK".into(),
            Ok(Err(e)) => format!("ERR {e}").replace('\n', " "),
            Err(p) => format!("PANIC {p}").replace('\n', " "),
        };
        println!("{} {s}", ["A", "B"][side]);
    };
    if c.before {
        for side in 0..2 {
            let db = MemoryDatastore::create_msgpack_db(path(side));
            apply(&db, &cv(4, "x"));
            db.sync().unwrap();
        }
    }
    let stop = || unsafe {
        libc::syscall(libc::SYS_tgkill, libc::getpid(), libc::syscall(libc::SYS_gettid), libc::SIGSTOP);
    };
    let b = move || {
        let db = store(1);
        stop();
        let r = catch(|| db.sync());
        stop();
        r
    };
    let a = move || {
        let db = store(0);
        stop();
        let r = catch(|| db.sync());
        stop();
        r
    };
    if c.process {
        let kid = unsafe { libc::fork() };
        if kid == 0 {
            result(1, b());
            std::process::exit(0);
        }
        result(0, a());
        let mut st = 0;
        unsafe { libc::waitpid(kid, &mut st, 0) };
    } else {
        let h = std::thread::spawn(b);
        result(0, a());
        match h.join() {
            Ok(r) => result(1, r),
            Err(_) => println!("B PANIC"),
        }
    }
    std::process::exit(0);
}

unsafe fn pt(req: u32, pid: i32, addr: usize, data: usize) -> i64 {
    libc::ptrace(req, pid, addr, data)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    /// Not yet at its sync.
    Early,
    /// Stopped before its sync, or at a call of it.
    Held,
    Running,
    /// Its sync has ended.
    Over,
}

/// Runs the two syncs: A up to its `i`-th file operation, B up to its `j`-th,
/// A to the end, B to the end. Answers how many operations each had.
fn trace(ci: usize, t: bool, dir: &Path, i: usize, j: usize, waits: &mut u64) -> Result<([usize; 2], String), String> {
    let outp = dir.with_extension("out");
    let out = std::fs::File::create(&outp).unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("meet").arg(ci.to_string()).arg(if t { "t" } else { "q" }).current_dir(dir).env("TMPDIR", dir).stdin(Stdio::null()).stdout(out).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let kid = cmd.spawn().map_err(|e| format!("HARNESS: cannot trace: {e}"))?;
    let pid = kid.id() as i32;
    std::mem::forget(kid);
    // Threads (or processes): A is the first, B the other.
    let mut who: [i32; 2] = [pid, 0];
    let mut state = [At::Early; 2];
    let mut calls = [0usize; 2];
    let until = [i, j];
    let mut inside: HashMap<i32, bool> = HashMap::new();
    let mut failed = None;
    // 0: A to its i-th, 1: B to its j-th, 2: A to the end, 3: B to the end.
    let mut stage = 0;
    unsafe {
        let mut first = true;
        let mut since = std::time::Instant::now();
        let begun = std::time::Instant::now();
        let mut exited = false;
        while !exited {
            // Whose turn it is.
            if !first && state.iter().all(|s| *s != At::Early) {
                // In the end, whoever can.
                let turn = if stage == 3 && state[1] != At::Held { usize::from(state[0] != At::Held) } else { stage % 2 };
                if state[turn] == At::Over && stage < 3 || state[turn] == At::Held && calls[turn] > until[turn] && stage < 2 {
                    stage += 1;
                    since = std::time::Instant::now();
                    continue;
                }
                if state[turn] == At::Held {
                    state[turn] = At::Running;
                    pt(libc::PTRACE_SYSCALL, who[turn], 0, 0);
                    since = std::time::Instant::now();
                } else if state[turn] == At::Running && since.elapsed().as_millis() > 700 && stage < 3 {
                    // It waits for the other, as it may.
                    *waits += 1;
                    stage += 1;
                    since = std::time::Instant::now();
                    continue;
                }
            }
            if begun.elapsed().as_secs() > 25 {
                failed = Some("the syncs do not end".to_string());
                libc::kill(pid, libc::SIGKILL);
                if state[1] != At::Over && who[1] != 0 {
                    libc::kill(who[1], libc::SIGKILL);
                }
            }
            let mut st = 0;
            let w = libc::waitpid(if first { pid } else { -1 }, &mut st, libc::__WALL | if first { 0 } else { libc::WNOHANG });
            if w == 0 {
                std::thread::sleep(std::time::Duration::from_micros(50));
                continue;
            }
            if w < 0 {
                break;
            }
            if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
                exited = w == pid;
                if libc::WIFSIGNALED(st) && failed.is_none() {
                    failed = Some(format!("ended by signal {}", libc::WTERMSIG(st)));
                }
                continue;
            }
            if first {
                first = false;
                pt(libc::PTRACE_SETOPTIONS, pid, 0, (libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL | libc::PTRACE_O_TRACECLONE | libc::PTRACE_O_TRACEFORK | libc::PTRACE_O_TRACEVFORK) as usize);
                pt(libc::PTRACE_CONT, pid, 0, 0);
                continue;
            }
            let sig = libc::WSTOPSIG(st);
            let s = who.iter().position(|x| *x == w);
            if sig == libc::SIGTRAP | 0x80 {
                let Some(s) = s else {
                    pt(libc::PTRACE_SYSCALL, w, 0, 0);
                    continue;
                };
                if inside.remove(&w).is_some() {
                    pt(libc::PTRACE_SYSCALL, w, 0, 0);
                    continue;
                }
                inside.insert(w, true);
                let mut r: libc::user_regs_struct = std::mem::zeroed();
                pt(libc::PTRACE_GETREGS, w, 0, &mut r as *mut _ as usize);
                let nr = r.orig_rax as i64;
                let name = crate::image::FILE_CALLS.iter().find(|c| c.0 == nr).map(|c| c.1);
                if name.is_some_and(|n| CALLS.contains(&n)) && state[s] == At::Running {
                    calls[s] += 1;
                    state[s] = At::Held;
                    continue;
                }
                pt(libc::PTRACE_SYSCALL, w, 0, 0);
                continue;
            }
            match sig {
                libc::SIGSTOP => match s {
                    // The stop a new thread or process begins with.
                    None => {
                        if who[1] == 0 {
                            who[1] = w;
                        }
                        pt(libc::PTRACE_CONT, w, 0, 0);
                    }
                    Some(s) => match state[s] {
                        At::Early => state[s] = At::Held,
                        At::Over => {
                            pt(libc::PTRACE_CONT, w, 0, 0);
                        }
                        _ => {
                            state[s] = At::Over;
                            pt(libc::PTRACE_CONT, w, 0, 0);
                        }
                    },
                },
                libc::SIGTRAP => {
                    pt(libc::PTRACE_CONT, w, 0, 0);
                }
                x => {
                    pt(libc::PTRACE_CONT, w, 0, x as usize);
                }
            }
        }
        // What remains of a process of its own.
        loop {
            let mut st = 0;
            if libc::waitpid(-1, &mut st, libc::__WALL) < 0 {
                break;
            }
        }
    }
    let text = std::fs::read_to_string(&outp).unwrap_or_default();
    let _ = std::fs::remove_file(&outp);
    match failed {
        Some(f) => Err(format!("{f}; {}", text.replace('\n', " "))),
        None => Ok((calls, text)),
    }
}

fn meet(ci: usize, c: &Meet, t: bool, i: usize, j: usize, env: &mut Env) -> Result<(), String> {
    let dir = env.fresh_path();
    for d in ["x", "y"] {
        std::fs::create_dir_all(dir.join(d)).unwrap();
    }
    let ms = [model_of(c, 0), model_of(c, 1)];
    let bat = battery(&uni(), Depth::Full);
    let r = (|| {
        let mut waits = 0;
        let (calls, text) = trace(ci, t, &dir, i, j, &mut waits)?;
        env.count("transitions", (calls[0] + calls[1]) as u64);
        env.count("schedules", 1);
        env.count("syncs that waited for the other", waits);
        for l in ["A OK", "B OK"] {
            if !text.lines().any(|x| x == l) {
                return Err(format!("a sync failed: {}", text.replace('\n', "; ")));
            }
        }
        for k in 0..if c.one { 1 } else { 2 } {
            let n = image(c, k);
            let db = MemoryDatastore::read_msgpack_db(dir.join(n)).map_err(|e| format!("image {n} cannot be loaded: {e}"))?;
            let r = check_state(&db, &ms[k], &bat);
            let r = if c.one { r.or_else(|e| check_state(&db, &ms[1], &bat).map_err(|e2| format!("{e}; or {e2}"))) } else { r };
            r.map_err(|e| format!("image {n} afterwards: {e}"))?;
            env.count("images judged", 1);
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

pub fn c33(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    for w in worlds() {
        let disk = w.kinds.contains(&Kind::Rocks);
        if disk {
            p.push(sequences(w.clone(), if t { 3 } else { 2 }, 2, false));
            p.push(sequences(w.clone(), if t { 3 } else { 2 }, 1, true));
        } else {
            p.push(sequences(w.clone(), 3, 2, false));
            p.push(sequences(w.clone(), if t { 4 } else { 3 }, 1, true));
            if t {
                p.push(sequences(w.clone(), 3, 2, true));
            }
        }
        if w.tie != Tie::SameStore {
            p.push(transactions(w));
        }
    }
    let crowds: Vec<(u128, u128)> = if t { vec![(2, 0), (17, 0), (0, 17), (300, 0), (2000, 0), (100, 40), (0, 64)] } else { vec![(17, 0), (300, 0), (40, 20)] };
    let shown = crowds.clone();
    p.push(cases(
        "many stores",
        crowds.len() as u64,
        move |i, env| {
            let (a, b) = crowds[i as usize];
            crowd(a, b, env).map_err(|e| Fail::new(&format!("many|{a}|{b}"), format!("{a} stores in memory and {b} on disk: {e}")))
        },
        move |i| format!("{:?}", shown[i as usize]),
    ));
    p.push(cases("opened twice", 3, |i, env| twice(i, env).map_err(|e| Fail::new(&format!("twice|{i}"), e)), |i| format!("opened a second time, way {i}")));
    let ms = meets(t);
    const N: u64 = 14;
    let per = N * N;
    let shown = ms.clone();
    p.push(cases(
        "two syncs",
        ms.len() as u64 * per,
        move |k, env| {
            let (ci, i, j) = ((k / per) as usize, (k % per / N) as usize, (k % N) as usize);
            let c = ms[ci];
            meet(ci, &c, t, i, j, env).map_err(|e| Fail::new(&format!("syncs|{c:?}|{i}|{j}"), format!("{c:?}: A up to its operation {i}, B up to its operation {j}, A, B: {e}")))
        },
        move |k| format!("{:?}, A to {}, B to {}", shown[(k / per) as usize], k % per / N, k % N),
    ));
    p
}
