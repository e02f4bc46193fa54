//! Persistence without crashes: memory images (C14), reopening RocksDB (C16).

use crate::seq::*;
use indradb::{Database, MemoryDatastore, Query};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{Cfg, Env, Fail, Part};
use mc_core::universe::*;
use std::path::PathBuf;

type Parts = Vec<Box<dyn Part>>;
const M: u32 = u32::MAX;

fn image_scope(a: u128, b: u128) -> Scope {
    let e = (a, "t", b);
    let ops = vec![
        Op::Sync,
        Op::Reopen,
        cv(a, "x"),
        cv(b, "x"),
        ce(a, "t", b),
        ce(b, "t", b),
        dv(b),
        de(a, "t", b),
        sv(a, "p", "1"),
        sv(b, "p", "{\"k\":[1]}"),
        se_(e, "p", "1"),
        dvp(a, Some("p")),
        dep(e, None),
        index("p"),
    ];
    let u = Universe::new(&[a, b], &["x"], &["t"], &["p", "q"], &["1", "{\"k\":[1]}"]);
    let mut s = Scope::new(&format!("image[{},{}]", sid(id(a)), sid(id(b))), Store::MemFile, ops, u);
    s.prefix = vec![Op::Sync];
    s
}

pub fn c14(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    p.push(Tree::new(image_scope(NIL, MAXID), if t { 5 } else { 4 }));
    p.push(Graph::new(image_scope(1, 2), if t { 8 } else { 6 }, if t { 3 } else { 1 }));
    let pre = vec![
        cv(1, "x"), cv(2, "x"), ce(1, "t", 2), ce(2, "t", 2), index("p"),
        Op::Set(Query::AllVertex, "p".into(), j("1")), Op::Set(Query::AllEdge, "p".into(), j("1")), Op::Sync,
    ];
    let sc = with_prefix(image_scope(1, 2), "image-populated", pre);
    p.push(Tree::new(sc, if t { 5 } else { 4 }));
    // Bulk insertion, incomplete elements, odd names.
    let l = "n".repeat(255);
    let mut sc = image_scope(1, 2);
    sc.name = "image-bulk/MemFile".into();
    sc.alphabet = vec![
        Op::Sync, Op::Reopen, index(""), index(&l), index("é"), cv(1, "é"), cv(2, &l), dv(1), dv(2),
        Op::Bulk(vec![bv(1, "x"), bv(2, "x"), be(1, "", 2), bvp(1, "", "1"), bep(1, "", 2, &l, "1"), bvp(2, "é", "null")]),
        Op::Bulk(vec![be(1, "", 2), bep(1, "", 2, "", "1"), bvp(1, &l, "2")]),
        Op::Delete(Query::AllVertex),
        Op::Delete(q_props(Query::AllVertex, Some(""))),
        Op::Set(Query::AllEdge, "".into(), j("[[],{},\"\\u0000\"]")),
    ];
    sc.uni = Universe::new(&[1, 2], &["é", &l, "x"], &[""], &["", &l, "é"], &["1", "2", "null", "[[],{},\"\\u0000\"]"]);
    p.push(Tree::new(sc.clone(), if t { 5 } else { 3 }));
    p.push(Graph::new(sc, if t { 7 } else { 5 }, 1));
    // Sizes around those of buffers, growing and shrinking images.
    let mut sizes: Vec<usize> = (0..80).collect();
    for c in [256usize, 4096, 8192, 16384, 65536, 1 << 20] {
        let w = if t { 80 } else { 48 };
        sizes.extend(c - w..c + 8);
    }
    let seqs: Vec<Vec<Op>> = sizes
        .iter()
        .map(|n| {
            let big = serde_json::Value::from("v".repeat(*n));
            let big = indradb::Json::new(big);
            vec![
                cv(1, "x"), sv(1, "q", "1"), Op::Sync, Op::Set(q_v(id(1)), "p".into(), big), index("p"), cv(2, "x"), Op::Sync, Op::Reopen, dv(1), Op::Sync,
                Op::Reopen, sv(2, "p", "1"), Op::Sync, Op::Reopen,
            ]
        })
        .collect();
    let mut sc = image_scope(1, 2);
    sc.name = "image-sizes/MemFile".into();
    p.push(Listed::new(sc, seqs));
    let places: Vec<&'static str> = vec!["image", "d/image", "é image", "./image", "d/../image", "absolute", "absolute/d", "long", "garbage", "empty", "older", "linked"];
    p.push(cases("image-places", places.len() as u64 * 2, {
        let places = places.clone();
        move |i, env| place(places[i as usize / 2], i % 2 == 1, env)
    }, move |i| format!("{}{}", places[i as usize / 2], if i % 2 == 1 { ", through a second store" } else { "" })));
    p.push(cases("no-file", 3, no_file, |i| format!("store without a file, variant {i}")));
    p
}

fn populate(db: &Database<MemoryDatastore>, m: &mut Model, n: u128) -> Result<(), String> {
    for op in [cv(n, "x"), cv(n + 1, "y"), ce(n, "t", n + 1), sv(n, "p", "1"), se_((n, "t", n + 1), "p", "[2]"), index("p")] {
        let got = apply(db, &op);
        let want = apply_model(m, &op, db)?;
        if got != want {
            return Err(format!("{} answered {}", optext(&op), ans_text(&got)));
        }
    }
    Ok(())
}

fn uni() -> Universe {
    Universe::new(&[1, 2, 3, 4], &["x", "y"], &["t"], &["p"], &["1", "[2]"])
}

/// Images at paths of different kinds, over different things.
fn place(kind: &str, second: bool, env: &mut Env) -> Result<(), Fail> {
    let dir = env.fresh_path();
    std::fs::create_dir_all(dir.join("d")).unwrap();
    // Workers run one case at a time.
    let cwd = std::env::current_dir().unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let long = "i".repeat(200);
    let path: PathBuf = match kind {
        "absolute" => dir.join("image"),
        "absolute/d" => dir.join("d").join("image"),
        "long" => long.into(),
        "garbage" => {
            std::fs::write("image", vec![0xc1; 100_000]).unwrap();
            "image".into()
        }
        "empty" => {
            std::fs::write("image", b"").unwrap();
            "image".into()
        }
        "older" => {
            let db = MemoryDatastore::create_msgpack_db("image");
            let mut m = Model::default();
            populate(&db, &mut m, 3).unwrap();
            for i in 0..2000 {
                apply(&db, &cv(1000 + i, "x"));
            }
            db.sync().unwrap();
            "image".into()
        }
        "linked" => {
            std::fs::write("target", b"").unwrap();
            std::os::unix::fs::symlink("target", "image").unwrap();
            "image".into()
        }
        k => k.into(),
    };
    let run = || -> Result<(), String> {
        let bat = battery(&uni(), Depth::Full);
        let db = MemoryDatastore::create_msgpack_db(path.clone());
        let mut m = Model::default();
        populate(&db, &mut m, 1)?;
        db.sync().map_err(|e| format!("sync failed: {e}"))?;
        let read = || MemoryDatastore::read_msgpack_db(path.clone()).map_err(|e| format!("reading the image failed: {e}"));
        let db2 = read()?;
        check_state(&db2, &m, &bat)?;
        let before = m.clone();
        let on = if second { &db2 } else { &db };
        populate(on, &mut m, 3)?;
        check_state(&read()?, &before, &bat).map_err(|e| format!("changes got into the image without a sync: {e}"))?;
        on.sync().map_err(|e| format!("second sync failed: {e}"))?;
        check_state(&read()?, &m, &bat)?;
        check_state(if second { &db } else { &db2 }, &before, &bat).map_err(|e| format!("the other store changed: {e}"))?;
        drop(db);
        drop(db2);
        check_state(&read()?, &m, &bat)?;
        Ok(())
    };
    let r = run();
    std::env::set_current_dir(&cwd).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    env.count("images loaded", 5);
    r.map_err(|e| Fail::new(&format!("place {kind} {second}"), format!("image at {kind:?} (second store: {second}): {e}")))
}

fn no_file(i: u64, env: &mut Env) -> Result<(), Fail> {
    let dir = env.fresh_path();
    std::fs::create_dir_all(&dir).unwrap();
    let cwd = std::env::current_dir().unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let run = || -> Result<(), String> {
        let db = MemoryDatastore::new_db();
        let mut m = Model::default();
        if i > 0 {
            populate(&db, &mut m, 1)?;
        }
        for _ in 0..=i {
            db.sync().map_err(|e| format!("sync failed: {e}"))?;
        }
        check_state(&db, &m, &battery(&uni(), Depth::Full))?;
        populate(&db, &mut m, 3)?;
        check_state(&db, &m, &battery(&uni(), Depth::Full))?;
        if std::fs::read_dir(".").unwrap().count() > 0 {
            return Err("the sync of a store without a file created a file".into());
        }
        Ok(())
    };
    let r = run();
    std::env::set_current_dir(&cwd).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    r.map_err(|e| Fail::new(&format!("no-file {i}"), format!("store without a file: {e}")))
}

// ---- C16 -------------------------------------------------------------------

fn rocks_scope(a: u128, b: u128) -> Scope {
    let e = (a, "t", b);
    let ops = vec![
        cv(a, "x"),
        cv(b, "x"),
        ce(a, "t", b),
        ce(b, "t", a),
        dv(a),
        de(a, "t", b),
        sv(a, "p", "1"),
        Op::Set(Query::AllVertex, "p".into(), j("\"2\"")),
        se_(e, "p", "1"),
        dvp(a, Some("p")),
        dep(e, Some("p")),
        index("p"),
        Op::Sync,
        Op::Bulk(vec![bv(a, "x"), bv(b, "x"), be(a, "t", b), bvp(a, "p", "1"), bep(a, "t", b, "p", "1")]),
    ];
    let u = Universe::new(&[a, b], &["x"], &["t"], &["p", "q"], &["1", "\"2\""]);
    let mut s = Scope::new("reopen", Store::Rocks, ops, u);
    s.reopen_every = 0;
    s
}

/// Transitions of the model's state graph; after each, with or without a
/// sync, the store is closed and opened in one of the ways; then it goes on.
struct Reopened {
    scope: Scope,
    jobs: Vec<Vec<u16>>,
    syncs: Vec<bool>,
    ways: Vec<usize>,
    sess: Session,
}

impl Reopened {
    fn seq(&self, i: u64) -> (Vec<Op>, Vec<bool>) {
        let i = i as usize;
        let per = self.syncs.len() * self.ways.len();
        let (jb, k) = (i / per, i % per);
        let way = self.ways[k / self.syncs.len()];
        let sync = self.syncs[k % self.syncs.len()];
        let mut ops = self.scope.prefix.clone();
        ops.extend(self.jobs[jb].iter().map(|d| self.scope.alphabet[*d as usize].clone()));
        if sync {
            ops.push(Op::Sync);
        }
        let mut watch = vec![false; ops.len()];
        ops.push(Op::ReopenAs(way));
        watch.push(true);
        // Goes on with every operation, starting from a different one each time.
        let n = self.scope.alphabet.len();
        for x in 0..n {
            ops.push(self.scope.alphabet[(x + jb) % n].clone());
            watch.push(x + 1 == n || x == 0);
        }
        if (jb + way) % 4 == 0 {
            ops.push(Op::ReopenAs(0));
            watch.push(true);
        }
        (ops, watch)
    }
}

impl Part for Reopened {
    fn name(&self) -> String {
        format!("reopen:{}:{} histories", self.scope.name, self.jobs.len())
    }
    fn len(&self) -> u64 {
        (self.jobs.len() * self.syncs.len() * self.ways.len()) as u64
    }
    fn text(&self, i: u64) -> String {
        optexts(&self.seq(i).0)
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let (ops, watch) = self.seq(i);
        env.count("stores closed and reopened", 1);
        run_case(&self.scope, &mut self.sess, i, &ops, &watch, env)
    }
    fn close(&mut self) {
        self.sess = Session::default();
    }
}

/// Every history of the alphabet up to a length, shortest first.
fn histories(n: usize, depth: usize) -> Vec<Vec<u16>> {
    let mut out: Vec<Vec<u16>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = out.len();
        for k in from..to {
            for a in 0..n {
                let mut p = out[k].clone();
                p.push(a as u16);
                out.push(p);
            }
        }
        from = to;
    }
    out
}

pub fn c16(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    let all: Vec<usize> = (0..WAYS.len()).collect();
    let sc = rocks_scope(NIL, MAXID);
    // On stores of their own: short histories, all ways.
    let mut own = sc.clone();
    own.fresh = true;
    own.name = "own store/Rocks".into();
    let h = histories(own.alphabet.len(), if t { 2 } else { 1 });
    p.push(Box::new(Reopened { scope: own, jobs: h, syncs: vec![false, true], ways: all.clone(), sess: Session::default() }));
    // From a populated store.
    let mut pop = sc.clone();
    pop.fresh = true;
    pop.name = "populated/Rocks".into();
    pop.prefix = vec![
        cv(NIL, "x"), cv(MAXID, "x"), ce(NIL, "t", MAXID), ce(MAXID, "t", NIL), index("p"),
        Op::Set(Query::AllVertex, "p".into(), j("1")), Op::Set(Query::AllEdge, "p".into(), j("1")),
        Op::Set(Query::AllVertex, "q".into(), j("1")),
    ];
    let h = histories(pop.alphabet.len(), if t { 2 } else { 1 });
    p.push(Box::new(Reopened { scope: pop, jobs: h, syncs: vec![false, true], ways: all.clone(), sess: Session::default() }));
    // The state graph, in stores shared by many histories.
    let mut g = rocks_scope(1, 2);
    g.name = "graph/Rocks".into();
    let (jobs, _) = graph_jobs(&g, if t { 6 } else { 4 }, if t { 2 } else { 1 });
    let (ways, syncs) = if t { (all.clone(), vec![false, true]) } else { (vec![0, 4], vec![false]) };
    p.push(Box::new(Reopened { scope: g, jobs, syncs, ways, sess: Session::default() }));
    // Names of all kinds, all subsets indexed.
    let l = "n".repeat(255);
    let l2 = format!("{}é", "n".repeat(253));
    let names = ["", "p", "pp", "é", &l, &l2];
    let mut seqs = vec![];
    for mask in 0u32..64 {
        let mut ops = vec![cv(1, ""), cv(2, &l), ce(1, "", 2), ce(2, &l, 1)];
        for (k, n) in names.iter().enumerate() {
            if mask >> k & 1 == 1 && k % 2 == 0 {
                ops.push(index(n));
            }
            ops.push(Op::Set(Query::AllVertex, n.to_string(), j("1")));
            ops.push(Op::Set(Query::AllEdge, n.to_string(), j("[2]")));
            if mask >> k & 1 == 1 && k % 2 == 1 {
                ops.push(index(n));
            }
        }
        ops.push(Op::ReopenAs(mask as usize % WAYS.len()));
        for n in names {
            ops.push(Op::Delete(q_props(q_v(id(1)), Some(n))));
        }
        ops.push(Op::ReopenAs(5));
        ops.push(dv(2));
        ops.push(Op::ReopenAs(0));
        seqs.push(ops);
    }
    let u = Universe::new(&[1, 2], &["", &l], &["", &l], &names, &["1", "[2]"]);
    let mut sc = Scope::new("names", Store::Rocks, vec![], u);
    sc.fresh = true;
    p.push(Box::new(AfterReopen { l: Listed { scope: sc, seqs, sess: Session::default() } }));
    // Many indexed names and many elements: more than one block of everything.
    let mut seqs = vec![];
    for n in if t { vec![1, 60, 400, 1500] } else { vec![60, 400] } {
        for sync in [false, true] {
            let mut ops = vec![];
            for k in 0..n {
                ops.push(Op::Index(format!("name{k}")));
            }
            let mut items = vec![];
            for k in 0..n as u128 {
                items.push(bv(k + 10, "x"));
                items.push(bvp(k + 10, &format!("name{}", k % 7), "1"));
                items.push(be(k + 10, "t", 10));
                items.push(bep(k + 10, "t", 10, "name3", "[2]"));
            }
            ops.push(Op::Bulk(items));
            if sync {
                ops.push(Op::Sync);
            }
            ops.push(Op::ReopenAs(0));
            ops.push(Op::Delete(q_range(Some(id(12)), None, n as u32 / 2)));
            ops.push(Op::ReopenAs(4));
            ops.push(Op::Set(q_pipe(q_v(id(10)), false, None, M), "name3".into(), j("1")));
            ops.push(Op::ReopenAs(6));
            seqs.push(ops);
        }
    }
    let u = Universe::new(&[10, 11, 12, 500], &["x"], &["t"], &["name0", "name3", "name59", "name"], &["1", "[2]"]);
    let mut sc = Scope::new("many", Store::Rocks, vec![], u);
    sc.fresh = true;
    p.push(Box::new(AfterReopen { l: Listed { scope: sc, seqs, sess: Session::default() } }));
    p
}

/// As `Listed`, observing after each reopening and at the end.
struct AfterReopen {
    l: Listed,
}
impl Part for AfterReopen {
    fn name(&self) -> String {
        self.l.name()
    }
    fn len(&self) -> u64 {
        self.l.len()
    }
    fn text(&self, i: u64) -> String {
        self.l.text(i).chars().take(2000).collect()
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let ops = self.l.seqs[i as usize].clone();
        let n = ops.len();
        let watch: Vec<bool> = (0..n).map(|k| k + 1 == n || matches!(ops[k], Op::ReopenAs(_))).collect();
        run_case(&self.l.scope, &mut self.l.sess, i, &ops, &watch, env)
    }
    fn close(&mut self) {
        self.l.close()
    }
}
