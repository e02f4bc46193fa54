//! Crashes of RocksDB stores: during histories (C17), during opening (C18).

use crate::disk::{self, Mode, Shot, Torn};
use crate::seq::*;
use crate::shim;
use crate::wide;
use indradb::{Database, Query, RocksdbDatastore};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{catch, Cfg, Env, Fail, Part};
use mc_core::universe::*;
use std::path::Path;

type Parts = Vec<Box<dyn Part>>;
type Rocks = Database<RocksdbDatastore>;

const OPENINGS: usize = 3;
fn open_as(path: &Path, way: usize) -> Result<Rocks, String> {
    let r = catch(|| match way {
        0 => RocksdbDatastore::new_db(path),
        1 => RocksdbDatastore::new_db_with_options(path, &RocksdbDatastore::get_options(Some(32))),
        _ => RocksdbDatastore::new_db_with_options(path, &custom_options()),
    });
    match r {
        Ok(r) => r.map_err(|e| format!("opening the store ({}) failed: {e}", way_text(way))),
        Err(p) => Err(format!("opening the store ({}) panicked: {p}", way_text(way))),
    }
}
fn way_text(way: usize) -> &'static str {
    ["new_db", "new_db_with_options(get_options(Some(32)))", "new_db_with_options(custom)"][way]
}

fn uni() -> Universe {
    Universe::new(&[1, 2, 3], &["x", "y"], &["t", "u"], &["p", "q"], &["1", "[2]"])
}

/// Further use of a store: everything must go on working.
fn goes_on(db: &Rocks, m: &Model, bat: &[Query]) -> Result<Model, String> {
    let mut m = m.clone();
    let ops = [
        cv(3, "y"), cv(1, "x"), ce(1, "u", 3), index("q"), Op::Set(Query::AllVertex, "q".into(), j("[2]")),
        Op::Set(Query::AllEdge, "p".into(), j("1")), dv(1), Op::Sync, cv(2, "y"), sv(2, "p", "[2]"),
    ];
    for op in &ops {
        let got = apply(db, op);
        let want = apply_model(&mut m, op, db)?;
        if got != want {
            return Err(format!("going on, {} answered {}, expected {}", optext(op), ans_text(&got), ans_text(&want)));
        }
    }
    check_state(db, &m, bat).map_err(|e| format!("going on: {e}"))?;
    Ok(m)
}

/// A history with crashes at every file-changing call.
#[derive(Clone)]
struct History {
    prefix: Vec<Op>,
    ops: Vec<Op>,
    way: usize,
}

struct Crashes {
    name: String,
    hist: Vec<History>,
    mode: Mode,
    /// Also crash during every so-manieth recovery.
    again: usize,
    /// Each history's crash states are divided over so many cases.
    slices: u64,
    /// Cut the log, afterwards, at every byte instead.
    cut_log: bool,
    bat: Vec<Query>,
}

impl Crashes {
    fn judge(&self, shot: &Shot, states: &[Model], synced: &[usize], i: u64, n: usize, env: &mut Env) -> Result<(), String> {
        let path = env.fresh_path();
        let r = self.judge_at(shot, states, synced, i, n, env, &path);
        let _ = std::fs::remove_dir_all(&path);
        r
    }
    #[allow(clippy::too_many_arguments)]
    fn judge_at(&self, shot: &Shot, states: &[Model], synced: &[usize], i: u64, n: usize, env: &mut Env, path: &Path) -> Result<(), String> {
        disk::lay(&shot.files, path);
        let (lo, hi) = if shot.power {
            (*synced.iter().filter(|s| **s <= shot.done).max().unwrap_or(&0), (shot.done + 1).min(states.len() - 1))
        } else {
            (shot.done, (shot.done + 1).min(states.len() - 1))
        };
        let way = (i as usize + n) % OPENINGS;
        env.count("crash states reopened", 1);
        let again = self.again > 0 && (n / self.slices as usize) % self.again == 0;
        if again {
            disk::start(path, Mode { torn: Torn::No, crash: true, power: false });
        }
        let db = open_as(path, way);
        let second = if again { disk::stop().0 } else { vec![] };
        let db = db?;
        let mut first = String::new();
        let mut found = None;
        for k in (lo..=hi).rev() {
            if k < hi && states[k] == states[k + 1] {
                found = found.or(None);
            }
            match check_state(&db, &states[k], &self.bat) {
                Ok(q) => {
                    env.count("queries compared", q);
                    found = Some(k);
                    break;
                }
                Err(e) => {
                    if k == lo {
                        first = e;
                    }
                }
            }
        }
        let Some(k) = found else {
            return Err(format!("the store has neither the state after {lo} operations nor any later one up to {hi}; against that after {lo}: {first}"));
        };
        env.state(model_hash(&states[k], ""));
        // The bulk of crash states only differ in where a record is cut.
        if (n / self.slices as usize) % 4 == 0 || !shot.what.starts_with("after") {
            goes_on(&db, &states[k], &self.bat)?;
        }
        drop(db);
        for (x, s2) in second.iter().enumerate() {
            let p2 = env.fresh_path();
            disk::lay(&s2.files, &p2);
            env.count("crash states reopened after a second crash", 1);
            let r = open_as(&p2, (way + x) % OPENINGS).and_then(|db| {
                check_state(&db, &states[k], &self.bat)?;
                if x % 8 == 0 {
                    goes_on(&db, &states[k], &self.bat)?;
                }
                Ok(())
            });
            let _ = std::fs::remove_dir_all(&p2);
            r.map_err(|e| format!("second crash during recovery, {}: {e}", s2.what))?;
        }
        Ok(())
    }
    fn go(&self, i: u64, env: &mut Env) -> Result<(), String> {
        let h = &self.hist[(i / self.slices) as usize];
        let path = env.fresh_path();
        let r = self.go_at(h, i, env, &path);
        disk::stop();
        let _ = std::fs::remove_dir_all(&path);
        r
    }
    fn go_at(&self, h: &History, i: u64, env: &mut Env, path: &Path) -> Result<(), String> {
        let mut live = Live { store: Store::Rocks, path: path.to_path_buf(), db: AnyDb::Rocks(open_as(path, h.way)?) };
        let mut t = Track::default();
        for op in &h.prefix {
            step(&mut live, &mut t, op)?;
        }
        if !h.prefix.is_empty() {
            // So that the history's log is its own.
            live.db = AnyDb::Closed;
            live.db = AnyDb::Rocks(open_as(path, h.way)?);
        }
        let mut states = vec![t.m.clone()];
        let mut synced = vec![0];
        let mut ends = vec![];
        let log = |p: &Path| -> (String, u64) {
            let mut l: Vec<_> = std::fs::read_dir(p).unwrap().filter_map(|e| e.ok()).filter(|e| e.file_name().to_string_lossy().ends_with(".log")).collect();
            l.sort_by_key(|e| e.file_name());
            let e = l.last().unwrap();
            (e.file_name().to_string_lossy().to_string(), e.metadata().unwrap().len())
        };
        ends.push(log(path));
        disk::start(path, self.mode);
        for (k, op) in h.ops.iter().enumerate() {
            if let Op::Reopen = op {
                live.db = AnyDb::Closed;
                live.db = AnyDb::Rocks(open_as(path, h.way)?);
            } else {
                step(&mut live, &mut t, op)?;
            }
            disk::done(k + 1);
            states.push(t.m.clone());
            if matches!(op, Op::Sync) {
                synced.push(k + 1);
            }
            ends.push(log(path));
        }
        let (mut shots, calls) = disk::stop();
        if i % self.slices == 0 {
            env.count("histories crashed", 1);
            env.count("file-changing calls interrupted", calls);
        }
        let mine = |n: usize| n as u64 % self.slices == i % self.slices;
        if self.cut_log {
            // Every length of the log, from the full one down.
            let last = shots.pop().unwrap();
            shots.clear();
            let (name, len) = ends.last().unwrap().clone();
            if ends.iter().any(|e| e.0 != name) {
                return Err("harness: the history has more than one log".into());
            }
            let data = last.files[&name].clone();
            for cut in (0..=len).rev() {
                let mut files = last.files.clone();
                files.insert(name.clone(), std::sync::Arc::new(data[..cut as usize].to_vec()));
                // What ends before the cut is there, and nothing else.
                let done = ends.iter().rposition(|e| e.1 <= cut).unwrap_or(0);
                shots.push(Shot { done, what: format!("the log cut at byte {cut} of {len}"), files, power: false });
            }
            let exact: Vec<Model> = states.clone();
            for (n, s) in shots.iter().enumerate().filter(|x| mine(x.0)) {
                let one = vec![exact[s.done].clone()];
                let s0 = Shot { done: 0, ..s.clone() };
                self.judge(&s0, &one, &[0], i, n, env).map_err(|e| format!("{} ({} operations acknowledged before it): {e}", s.what, s.done))?;
            }
            return Ok(());
        }
        for (n, s) in shots.iter().enumerate().filter(|x| mine(x.0)) {
            self.judge(s, &states, &synced, i, n, env).map_err(|e| format!("{}, with {} operations acknowledged: {e}", s.what, s.done))?;
        }
        Ok(())
    }
}

impl Part for Crashes {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.hist.len() as u64 * self.slices
    }
    fn text(&self, i: u64) -> String {
        let h = &self.hist[(i / self.slices) as usize];
        let s = format!("({}) {} [{}]", optexts(&h.prefix), optexts(&h.ops), way_text(h.way));
        s.chars().take(1500).collect()
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        self.go(i, env).map_err(|e| {
            let t = self.text(i);
            Fail::new(&format!("{} | {t}", self.name), format!("[{}] {t}: {e}", self.name))
        })
    }
}

fn populated() -> Vec<Op> {
    vec![
        cv(1, "x"), cv(2, "y"), ce(1, "t", 2), ce(2, "u", 1), ce(1, "t", 1), index("p"),
        Op::Set(Query::AllVertex, "p".into(), j("1")), Op::Set(Query::AllEdge, "p".into(), j("1")), Op::Set(Query::AllEdge, "q".into(), j("[2]")),
    ]
}

fn alphabet() -> Vec<Op> {
    vec![
        cv(3, "x"),
        ce(2, "t", 1),
        dv(1),
        Op::Delete(Query::AllVertex),
        Op::Delete(Query::AllEdge),
        Op::Delete(q_props(Query::AllEdge, None)),
        Op::Delete(q_props(Query::AllVertex, Some("p"))),
        Op::Set(Query::AllVertex, "p".into(), j("[2]")),
        Op::Set(Query::AllEdge, "q".into(), j("1")),
        Op::Set(q_pipe(q_v(id(1)), true, None, u32::MAX), "p".into(), j("[2]")),
        Op::Bulk(vec![bv(3, "y"), bv(1, "y"), be(3, "u", 1), bvp(3, "p", "1"), bvp(1, "p", "[2]"), bep(3, "u", 1, "q", "1"), bep(1, "t", 2, "p", "[2]")]),
        index("q"),
        Op::Sync,
        Op::Reopen,
    ]
}

pub fn c17(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    let bat = battery(&uni(), Depth::Full);
    let a = alphabet();
    let crash = |torn| Mode { torn, crash: true, power: false };
    let power = Mode { torn: Torn::No, crash: false, power: true };
    let mk = |name: &str, hist: Vec<History>, mode: Mode, again: usize, cut_log: bool, slices: u64| -> Box<dyn Part> {
        Box::new(Crashes { name: format!("{name}:{} histories", hist.len()), hist, mode, again, cut_log, slices, bat: bat.clone() })
    };
    let small: Vec<Op> = (0..a.len()).filter(|k| t || *k != 4).map(|k| a[k].clone()).collect();
    // Every operation, and every pair, from a populated store.
    let one: Vec<History> = a.iter().enumerate().map(|(k, o)| History { prefix: populated(), ops: vec![o.clone()], way: k % 3 }).collect();
    p.push(mk("crash-op", one.clone(), crash(if t { Torn::All } else { Torn::Some }), if t { 2 } else { 6 }, false, 8));
    let mut two = vec![];
    for (x, o1) in small.iter().enumerate() {
        for (y, o2) in small.iter().enumerate() {
            two.push(History { prefix: populated(), ops: vec![o1.clone(), o2.clone()], way: (x + y) % 3 });
        }
    }
    p.push(mk("crash-pairs", two.clone(), crash(if t { Torn::Some } else { Torn::No }), if t { 8 } else { 0 }, false, 1));
    // From a new store, growing.
    let grow: Vec<Op> = vec![
        cv(1, "x"), cv(2, "y"), index("p"), ce(1, "t", 2), sv(1, "p", "1"), se_((1, "t", 2), "p", "[2]"), sv(1, "p", "[2]"), ce(2, "u", 2), dv(2), cv(2, "x"), ce(1, "t", 2),
    ];
    p.push(mk("crash-growing", (0..3).map(|w| History { prefix: vec![], ops: grow.clone(), way: w }).collect(), crash(if t { Torn::All } else { Torn::Some }), if t { 8 } else { 0 }, false, 8));
    // The log cut at every byte.
    let mut cuts = vec![];
    let n = a.len() - 2; // without sync and reopen
    let per = 4;
    for k in (0..n).step_by(per) {
        cuts.push(History { prefix: populated(), ops: (0..per).map(|x| a[(k + x) % n].clone()).collect(), way: 0 });
        if t {
            cuts.push(History { prefix: populated(), ops: (0..per).map(|x| a[(k + x * 5) % n].clone()).rev().collect(), way: 0 });
        }
    }
    for k in (0..grow.len()).step_by(4) {
        cuts.push(History { prefix: grow[..k].to_vec(), ops: grow[k..(k + 4).min(grow.len())].to_vec(), way: 0 });
    }
    p.push(mk("log-cut", cuts, crash(Torn::No), 0, true, 8));
    // Power loss: with a sync before, within and after.
    let mut pw = vec![];
    for (k, o) in small.iter().enumerate() {
        for pattern in 0..if t { 8 } else { 4 } {
            let mut ops = vec![];
            for x in 0..3 {
                ops.push(small[(k + x * 3) % small.len()].clone());
                if pattern >> x & 1 == 1 {
                    ops.push(Op::Sync);
                }
            }
            let _ = o;
            pw.push(History { prefix: if k % 2 == 0 { populated() } else { vec![] }, ops, way: k % 3 });
        }
    }
    // Only what goes to one kind of data, so that a sync must reach it.
    for op in &a {
        pw.push(History { prefix: populated(), ops: vec![op.clone(), Op::Sync, op.clone()], way: 0 });
        pw.push(History { prefix: populated(), ops: vec![Op::Sync, op.clone(), Op::Sync], way: 1 });
    }
    p.push(mk("power-loss", pw, power, 0, false, 1));
    // More data than the write buffers hold (64 KiB, and the log's blocks).
    let mut big = vec![];
    for n in if t { vec![60u128, 200, 800] } else { vec![60] } {
        for sync in [false, true] {
            let mut ops = vec![];
            for b in 0..if t { 6 } else { 4 } {
                let mut items = vec![];
                for k in 0..n {
                    let i = 10 + b * n + k;
                    items.push(bv(i, "x"));
                    let v = format!("\"{}\"", format!("{i:04}").repeat(120));
                    items.push(indradb::BulkInsertItem::VertexProperty(id(i), ident("p"), j(&v)));
                    items.push(be(i, "t", 10));
                    items.push(bep(i, "t", 10, "q", "1"));
                }
                ops.push(Op::Bulk(items));
                if sync && b % 2 == 0 {
                    ops.push(Op::Sync);
                }
            }
            ops.push(index("p"));
            ops.push(Op::Set(q_range(Some(id(12)), None, n as u32), "p".into(), j("1")));
            ops.push(dv(10));
            ops.push(Op::Delete(Query::AllVertex));
            big.push(History { prefix: vec![], ops, way: 2 });
        }
    }
    let bb: Vec<Query> = vec![
        Query::AllVertex, Query::AllEdge, q_count(Query::AllEdge), q_props(Query::AllVertex, None), q_props(Query::AllEdge, None), q_vhas("p"), q_ehas("q"),
        q_pipe(q_v(id(10)), false, None, u32::MAX), q_veq("p", &j("1")), q_pipe(Query::AllVertex, true, None, u32::MAX),
    ];
    // One operation on very many elements, which must be there all or not at all.
    let mut many = vec![];
    for n in if t { vec![130usize, 1100, 5001] } else { vec![1100] } {
        let bare = wide::bare(wide::Shape::Star, n, false);
        let Op::Bulk(all) = bare[0].clone() else { unreachable!() };
        let (v, e) = all.into_iter().partition::<Vec<_>, _>(|i| matches!(i, indradb::BulkInsertItem::Vertex(_)));
        let dressed = wide::dressed(wide::Shape::Star, n, false);
        let hub = wide::hub();
        let full: Vec<Op> = bare.iter().chain(&dressed).cloned().collect();
        let big = format!("\"{}\"", "large".repeat(500));
        let mut add = |prefix: &[Op], op: Op| many.push(History { prefix: prefix.to_vec(), ops: vec![op], way: 0 });
        add(&[], Op::Bulk(v.clone()));
        add(&[], Op::Bulk(v.iter().cloned().chain(e.clone()).collect()));
        add(&[Op::Bulk(v.clone())], Op::Bulk(e));
        add(&bare, dressed[0].clone());
        add(&full, index("p"));
        let mut indexed = full.clone();
        indexed.push(index("p"));
        add(&indexed, Op::Set(Query::AllVertex, "p".into(), j(&big)));
        add(&full, Op::Set(Query::AllEdge, "q".into(), j(&big)));
        add(&indexed, Op::Delete(Query::AllVertex));
        add(&indexed, Op::Delete(q_v(hub)));
        add(&indexed, Op::Delete(Query::AllEdge));
        add(&indexed, Op::Delete(q_props(Query::AllVertex, None)));
        add(&indexed, Op::Delete(q_props(Query::AllEdge, Some("p"))));
    }
    let mb: Vec<Query> = vec![Query::AllVertex, Query::AllEdge, q_props(Query::AllVertex, None), q_props(Query::AllEdge, None)];
    p.push(Box::new(Crashes { name: format!("crash-many:{} histories", many.len()), hist: many, mode: crash(Torn::No), again: 0, cut_log: false, slices: 1, bat: mb }));
    for (name, mode) in [("crash-big", crash(if t { Torn::Some } else { Torn::No })), ("power-loss-big", power)] {
        // The cases are split so that workers share them.
        p.push(Box::new(Crashes { name: format!("{name}:{} histories", big.len()), hist: big.clone(), mode, again: 0, cut_log: false, slices: 8, bat: bb.clone() }));
    }
    p
}

// ---- C18 -------------------------------------------------------------------

struct Opening {
    name: String,
    /// Operations that fill the store beforehand, if there is one.
    fill: Option<Vec<Op>>,
    ways: Vec<(usize, usize, usize)>,
    torn: Torn,
    nested: usize,
    slices: u64,
    bat: Vec<Query>,
}

impl Opening {
    fn go(&self, i: u64, env: &mut Env) -> Result<(), String> {
        let (w1, w2, w3) = self.ways[(i / self.slices) as usize];
        let path = env.fresh_path();
        let r = (|| {
            let mut m = Model::default();
            if let Some(ops) = &self.fill {
                let db = open_as(&path, w3)?;
                for op in ops {
                    apply(&db, op);
                    apply_model(&mut m, op, &db)?;
                }
            }
            self.interrupt(&path, &m, &[w1, w2, w3], self.torn, self.nested, Some(i % self.slices), env)
        })();
        disk::stop();
        let _ = std::fs::remove_dir_all(&path);
        r
    }
    /// Opens the store at the path, and resumes from each point.
    fn interrupt(&self, path: &Path, m: &Model, ways: &[usize; 3], torn: Torn, nested: usize, slice: Option<u64>, env: &mut Env) -> Result<(), String> {
        disk::start(path, Mode { torn, crash: true, power: false });
        let db = open_as(path, ways[0]);
        let (shots, calls) = disk::stop();
        let db = db?;
        check_state(&db, m, &self.bat)?;
        drop(db);
        env.count("file-changing calls recorded", calls);
        for (n, s) in shots.iter().enumerate() {
            if slice.is_some_and(|k| n as u64 % self.slices != k) {
                continue;
            }
            let p2 = env.fresh_path();
            let r = (|| {
                disk::lay(&s.files, &p2);
                env.count("interrupted openings resumed", 1);
                if nested > 0 && (n / self.slices as usize) % nested == 0 {
                    return self.interrupt(&p2, m, &[ways[1], ways[2], ways[0]], Torn::No, 0, None, env);
                }
                let db = open_as(&p2, ways[1])?;
                env.count("queries compared", check_state(&db, m, &self.bat)?);
                let m2 = goes_on(&db, m, &self.bat)?;
                env.state(model_hash(&m2, ""));
                env.state(model_hash(m, ""));
                drop(db);
                let db = open_as(&p2, ways[2])?;
                check_state(&db, &m2, &self.bat)?;
                Ok(())
            })();
            let _ = std::fs::remove_dir_all(&p2);
            r.map_err(|e: String| format!("interrupted {} while opening with {}: {e}", s.what, way_text(ways[0])))?;
        }
        Ok(())
    }
}

impl Part for Opening {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.ways.len() as u64 * self.slices
    }
    fn text(&self, i: u64) -> String {
        let (a, b, c) = self.ways[(i / self.slices) as usize];
        let f = self.fill.as_ref().map_or("a new store".to_string(), |o| format!("a store with {}", optexts(o)));
        format!("opening {f} with {}, resumed with {}, then {}", way_text(a), way_text(b), way_text(c)).chars().take(1000).collect()
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        self.go(i, env).map_err(|e| {
            let t = self.text(i);
            Fail::new(&format!("{} | {t}", self.name), format!("[{}] {t}: {e}", self.name))
        })
    }
}

/// Opening with each storage-engine call made to fail.
fn failing_open(i: u64, env: &mut Env, bat: &[Query]) -> Result<(), String> {
    let (fill, way, way2, sticky) = (i & 1 == 1, (i / 2 % 3) as usize, (i / 6 % 3) as usize, i / 18 % 2 == 1);
    for at in 1.. {
        let path = env.fresh_path();
        let mut m = Model::default();
        if fill {
            let db = open_as(&path, 0)?;
            for op in &populated() {
                apply(&db, op);
                apply_model(&mut m, op, &db)?;
            }
        }
        shim::arm(at, sticky);
        let r = catch(|| match way {
            0 => RocksdbDatastore::new_db(&path),
            1 => RocksdbDatastore::new_db_with_options(&path, &RocksdbDatastore::get_options(None)),
            _ => RocksdbDatastore::new_db_with_options(&path, &custom_options()),
        });
        let (calls, hit) = shim::disarm();
        let what = format!("{} with storage call {at} ({}) failing{}", way_text(way), hit.first().unwrap_or(&"none"), if sticky { " and all after it" } else { "" });
        env.count("openings with a failing storage call", 1);
        let r = match r {
            Err(p) => Err(format!("{what} panicked: {p}")),
            Ok(Ok(db)) => {
                // It may have got by.
                check_state(&db, &m, bat).map(|_| ()).map_err(|e| format!("{what} answered success: {e}"))
            }
            Ok(Err(_)) if hit.is_empty() => Err(format!("{what} failed by itself")),
            Ok(Err(_)) => Ok(()),
        };
        let r = r.and_then(|_| {
            let db = open_as(&path, way2).map_err(|e| format!("after {what}: {e}"))?;
            check_state(&db, &m, bat).map_err(|e| format!("after {what}: {e}"))?;
            goes_on(&db, &m, bat).map_err(|e| format!("after {what}: {e}"))?;
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&path);
        r?;
        if at > calls {
            break;
        }
    }
    Ok(())
}

const BAD: [&str; 14] = [
    "file", "empty file", "parent missing", "parent is a file", "in use", "CURRENT garbage", "CURRENT empty", "CURRENT names nothing", "manifest missing", "manifest garbage",
    "manifest empty", "table missing", "newer column family", "name too long",
];

/// Paths at which there is no store to open: an error, no panic, and nothing
/// that was there is damaged.
fn bad_path(i: u64, env: &mut Env, bat: &[Query]) -> Result<(), String> {
    let (kind, way) = (BAD[i as usize / 3], i as usize % 3);
    let root = env.fresh_path();
    std::fs::create_dir_all(&root).unwrap();
    let r = (|| {
        let path = match kind {
            "parent missing" => root.join("a/b/c"),
            "parent is a file" => root.join("f/db"),
            "name too long" => root.join("n".repeat(300)),
            _ => root.join("db"),
        };
        let store = ["in use", "CURRENT garbage", "CURRENT empty", "CURRENT names nothing", "manifest missing", "manifest garbage", "manifest empty", "table missing", "newer column family"].contains(&kind);
        let mut m = Model::default();
        if store {
            let db = open_as(&path, 0)?;
            for op in populated().iter().chain(&[Op::Sync]) {
                apply(&db, op);
                apply_model(&mut m, op, &db)?;
            }
        }
        let manifest = || {
            std::fs::read_dir(&path).unwrap().filter_map(|e| e.ok()).find(|e| e.file_name().to_string_lossy().starts_with("MANIFEST")).unwrap().path()
        };
        let mut hidden: Vec<(std::path::PathBuf, Vec<u8>)> = vec![];
        let mut replace = |p: std::path::PathBuf, by: Option<&[u8]>| {
            hidden.push((p.clone(), std::fs::read(&p).unwrap()));
            match by {
                Some(b) => std::fs::write(&p, b).unwrap(),
                None => std::fs::remove_file(&p).unwrap(),
            }
        };
        let mut held = None;
        match kind {
            "file" => std::fs::write(&path, b"something").unwrap(),
            "empty file" => std::fs::write(&path, b"").unwrap(),
            "parent is a file" => std::fs::write(root.join("f"), b"").unwrap(),
            "in use" => held = Some(open_as(&path, 0)?),
            "CURRENT garbage" => replace(path.join("CURRENT"), Some(b"\xff\x00garbage")),
            "CURRENT empty" => replace(path.join("CURRENT"), Some(b"")),
            "CURRENT names nothing" => replace(path.join("CURRENT"), Some(b"MANIFEST-009999\n")),
            "manifest missing" => replace(manifest(), None),
            "manifest garbage" => replace(manifest(), Some(&[0xa5; 5000])),
            "manifest empty" => replace(manifest(), Some(b"")),
            "table missing" => {
                let t = std::fs::read_dir(&path).unwrap().filter_map(|e| e.ok()).find(|e| e.file_name().to_string_lossy().ends_with(".sst"));
                if let Some(t) = t {
                    replace(t.path(), None)
                }
            }
            "newer column family" => {
                let o = custom_options();
                let names = rocksdb::DB::list_cf(&o, &path).map_err(|e| e.to_string())?;
                let mut db = rocksdb::DB::open_cf(&o, &path, &names).map_err(|e| e.to_string())?;
                db.create_cf("vertices:v3", &o).map_err(|e| e.to_string())?;
            }
            _ => {}
        }
        env.count("bad paths opened", 1);
        let got = catch(|| open_as(&path, way).map(|db| check_state(&db, &m, bat).map(|_| ())));
        match got {
            Err(p) => return Err(format!("opening panicked: {p}")),
            Ok(Err(e)) if e.contains("panicked") => return Err(e),
            // An opening that gets by shows everything.
            Ok(Ok(Err(e))) if !matches!(kind, "parent missing") => return Err(format!("opening answered success, but: {e}")),
            _ => {}
        }
        if kind == "file" && std::fs::read(&path).ok().as_deref() != Some(b"something") {
            return Err("the file at the path was changed".into());
        }
        if let Some(db) = held {
            // The one that has it open goes on.
            check_state(&db, &m, bat)?;
            m = goes_on(&db, &m, bat)?;
        }
        for (p, d) in hidden {
            std::fs::write(p, d).unwrap();
        }
        if store {
            let db = open_as(&path, way).map_err(|e| format!("with everything put right again: {e}"))?;
            check_state(&db, &m, bat).map_err(|e| format!("with everything put right again: {e}"))?;
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&root);
    r
}

pub fn c18(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let bat = battery(&uni(), Depth::Full);
    let mut p: Parts = vec![];
    let mut all = vec![];
    for a in 0..3 {
        for b in 0..3 {
            all.push((a, b, (a + b + 1) % 3));
        }
    }
    let mk = |name: &str, fill: Option<Vec<Op>>, torn, nested: usize, ways: Vec<(usize, usize, usize)>| -> Box<dyn Part> {
        Box::new(Opening { name: name.into(), fill, ways, torn, nested, slices: 8, bat: bat.clone() })
    };
    let some = if t { all.clone() } else { vec![(0, 1, 2), (1, 0, 0), (2, 0, 1)] };
    p.push(mk("new", None, if t { Torn::All } else { Torn::Some }, 0, some.clone()));
    p.push(mk("new, all ways", None, Torn::No, 0, all.clone()));
    let twice = if t { all.clone() } else { vec![(0, 0, 1), (1, 0, 1), (2, 1, 0)] };
    p.push(mk("new, interrupted twice", None, Torn::No, if t { 1 } else { 3 }, twice.clone()));
    p.push(mk("existing", Some(populated()), if t { Torn::All } else { Torn::Some }, 0, some.clone()));
    p.push(mk("existing, all ways", Some(populated()), Torn::No, 0, all.clone()));
    let mut synced = populated();
    synced.push(Op::Sync);
    p.push(mk("existing, synced", Some(synced), if t { Torn::Some } else { Torn::No }, 0, all.clone()));
    p.push(mk("existing, interrupted twice", Some(populated()), Torn::No, if t { 1 } else { 3 }, twice));
    p.push(mk("existing, empty", Some(vec![]), Torn::No, if t { 1 } else { 0 }, all));
    let b2 = bat.clone();
    p.push(cases("failing calls", 36, move |i, env| {
        let r = failing_open(i, env, &b2);
        shim::disarm();
        r.map_err(|e| Fail::new(&format!("failing open {i}"), e))
    }, |i| format!("opening {} with {}, resumed with {}{}", if i & 1 == 1 { "a populated store" } else { "a new store" }, way_text((i / 2 % 3) as usize), way_text((i / 6 % 3) as usize), if i / 18 % 2 == 1 { ", all calls from there on failing" } else { "" })));
    let b3 = bat.clone();
    p.push(cases("bad paths", BAD.len() as u64 * 3, move |i, env| {
        bad_path(i, env, &b3).map_err(|e| Fail::new(&format!("bad path {} {}", BAD[i as usize / 3], i % 3), format!("path kind {:?}, {}: {e}", BAD[i as usize / 3], way_text(i as usize % 3))))
    }, |i| format!("{} with {}", BAD[i as usize / 3], way_text(i as usize % 3))));
    p
}
