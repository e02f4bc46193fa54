//! C23: uploads take effect entirely or not at all.
use crate::net::*;
use crate::proxy::*;
use crate::raw::Raw;
use crate::wire::*;
use indradb::{BulkInsertItem, Database, Datastore, MemoryDatastore, RocksdbDatastore};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{take_panic, Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use std::future::Future;
use std::path::PathBuf;
use std::sync::Arc;
use std::time::Duration;
use tonic::Code;

type Parts = Vec<Box<dyn Part>>;

/// Two stores in use for many cases, and how many items they hold.
#[derive(Clone)]
enum Held {
    Mem(Arc<Database<MemoryDatastore>>),
    Rocks(Arc<Database<RocksdbDatastore>>, PathBuf),
}

fn base() -> Vec<Op> {
    vec![cv(1, "x"), cv(2, "y"), ce(1, "t", 2), index("p"), sv(1, "p", "0"), se_((1, "t", 2), "p", "0")]
}

/// Items that say in the end which came last, and how many came.
fn items(n: usize) -> Vec<BulkInsertItem> {
    (0..n as u128)
        .map(|k| match k % 5 {
            0 => bv(10 + k, "x"),
            1 => be(1, "t", 10 + k - 1),
            2 => bvp(1, "p", &format!("{k}")),
            3 => bep(1, "t", 2, "p", &format!("{k}")),
            _ => bvp(10 + k - 4, "q", &format!("\"{k}\"")),
        })
        .collect()
}
fn uni(n: usize) -> Universe {
    let vals: Vec<String> = [0usize, n / 2, n.saturating_sub(1)].iter().map(|k| k.to_string()).collect();
    let v: Vec<&str> = vals.iter().map(|s| s.as_str()).collect();
    Universe::new(&[1, 2], &["x", "y"], &["t"], &["p", "q"], &v)
}

/// A case: how the upload is made.
#[derive(Clone, Debug)]
enum How {
    /// By the client, acknowledged.
    Whole,
    /// By the client, through a relay that cuts.
    Relay(Cut),
    /// As bytes, with the changed item at this position.
    Bad(usize, String, T),
    /// The client dies after this many items, at once or a little later, in
    /// the middle of the stream.
    Leave(usize, u64, bool),
    /// The client's future is dropped after this many polls.
    Drop(usize),
}

struct Setup {
    held: Held,
    before: Model,
}

fn setup(rocks: bool, env: &mut Env) -> Result<Setup, String> {
    let mut before = Model::default();
    let held = if rocks {
        let p = env.fresh_path();
        Held::Rocks(Arc::new(open_rocks(&p)?), p)
    } else {
        Held::Mem(Arc::new(MemoryDatastore::new_db()))
    };
    for op in base() {
        let got = match &held {
            Held::Mem(d) => d.run(&op),
            Held::Rocks(d, _) => d.run(&op),
        };
        match &held {
            Held::Mem(d) => apply_model(&mut before, &op, &**d)?,
            Held::Rocks(d, _) => apply_model(&mut before, &op, &**d)?,
        };
        if matches!(got, Ans::Err(_)) {
            return Err(format!("{} answered {}", optext(&op), ans_text(&got)));
        }
    }
    Ok(Setup { held, before })
}

/// Whether the store is as it was; else it must be set up again.
fn trial(s: &Setup, n: usize, how: &How, env: &mut Env) -> Result<(bool, Passed), String> {
    match &s.held {
        Held::Mem(d) => trial_on(d, &s.before, n, how, env),
        Held::Rocks(d, _) => trial_on(d, &s.before, n, how, env),
    }
}

fn trial_on<D: Datastore + Send + Sync + 'static>(db: &Arc<Database<D>>, before: &Model, n: usize, how: &How, env: &mut Env) -> Result<(bool, Passed), String> {
    let list = items(n);
    let mut r = Remote::over(db.clone(), 2)?;
    take_panic();
    let mut passed = Passed::default();
    // Whether it may, and whether it must have taken effect.
    let (mut may, mut must) = (false, false);
    let mut problem = None;
    match how {
        How::Whole => {
            r.call(|mut c| async move { c.bulk_insert(list).await })?;
            must = true;
        }
        How::Relay(cut) => {
            let p = Proxy::new(r.addr, *cut)?;
            let addr = p.addr;
            let res = wait(async move {
                let mut c = connect(addr).await?;
                c.bulk_insert(list).await.map_err(|e| e.to_string())
            })?;
            passed = p.passed()?;
            must = res.is_ok();
            may = must || passed.ended > 0;
            if must && passed.ended == 0 {
                problem = Some("the upload was acknowledged before it was complete".to_string());
            }
        }
        How::Bad(k, _, t) => {
            let raw = Raw::new(r.addr)?;
            let mut bodies: Vec<Vec<u8>> = list.iter().map(|i| w_item(i).body()).collect();
            bodies[*k] = t.body();
            match raw.send("BulkInsert", bodies)? {
                Ok(_) => problem = Some("it was reported as done".into()),
                Err(e) if matches!(e.code(), Code::InvalidArgument | Code::Internal) => {}
                Err(e) => problem = Some(format!("it was refused with {:?} ({})", e.code(), e.message())),
            }
        }
        How::Leave(k, ms, reset) => {
            let p = Proxy::new(r.addr, Cut { reset: *reset, ..WHOLE })?;
            let raw = Raw::new(p.addr)?;
            let bodies: Vec<Vec<u8>> = list.iter().take(*k).map(|i| w_item(i).body()).collect();
            let (tx, rx) = tokio::sync::mpsc::channel(1);
            let (k, ms) = (*k, *ms);
            let pr = &p;
            let res = wait(async move {
                let call = tokio::spawn(async move { raw.call("BulkInsert", tokio_stream::wrappers::ReceiverStream::new(rx)).await });
                for b in bodies {
                    if tx.send(b).await.is_err() {
                        return Err(format!("the upload ended before {k} items"));
                    }
                }
                // Until the last item is taken, or surely sent.
                let _ = tx.reserve().await;
                if ms > 0 {
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                }
                if call.is_finished() {
                    return Err("the call ended although the upload had not".into());
                }
                pr.kill();
                let res = call.await.map_err(|e| e.to_string())?;
                drop(tx);
                Ok(res.is_ok())
            })??;
            passed = p.passed()?;
            if res {
                problem = Some("an upload that was broken off was reported as done".into());
            }
        }
        How::Drop(polls) => {
            let polls = *polls;
            let c = r.client.lock().unwrap().take();
            wait(async move {
                let mut c = c.expect("client");
                let mut f = Box::pin(c.bulk_insert(list));
                let mut left = polls;
                std::future::poll_fn(|cx| {
                    if left == 0 {
                        return std::task::Poll::Ready(());
                    }
                    left -= 1;
                    f.as_mut().poll(cx).map(|_| ())
                })
                .await;
            })?;
            // The client's own task may well go on to the end.
            may = true;
            *r.client.lock().unwrap() = Some(wait(connect(r.addr))??);
        }
    }
    if let Some(p) = take_panic() {
        problem = Some(format!("a panic: {p}"));
    }
    env.count("uploads made", 1);
    r.call(|mut c| async move { c.ping().await }).map_err(|e| format!("the server no longer answers: {e}"))?;
    // Once nothing holds the database any more, nothing more can happen.
    r.stop()?;
    let bat = battery(&uni(n), Depth::Core);
    let mut after = before.clone();
    apply_model(&mut after, &Op::Bulk(items(n)), &**db)?;
    let is = |m: &Model| check_state(&**db, m, &bat);
    let unchanged = is(before);
    env.count("queries compared", bat.len() as u64);
    if let Some(p) = problem {
        return Err(p);
    }
    match (&unchanged, is(&after)) {
        (_, Ok(_)) if may || must => {}
        (_, Err(e)) if must => return Err(format!("it was acknowledged, but {e}")),
        (Ok(_), _) => {}
        (Err(_), Ok(_)) => return Err("it took effect although its end was never sent".into()),
        (Err(e), Err(_)) => return Err(format!("it took effect in part: {e}")),
    }
    env.count(if unchanged.is_ok() { "uploads without effect" } else { "uploads in full effect" }, 1);
    Ok((unchanged.is_ok(), passed))
}

/// The ways to spoil an item.
fn spoiled(k: usize) -> Vec<(String, T)> {
    let mut out = vec![];
    for t in [w_item(&bv(500, "x")), w_item(&be(1, "t", 2)), w_item(&bvp(1, "p", "1")), w_item(&bep(1, "t", 2, "p", "1"))] {
        for (what, c) in changes(&t) {
            if m_item(&c).is_err() {
                out.push((what, c));
            }
        }
    }
    // Each position gets some of them, all positions together all.
    let m = out.len();
    (0..12).map(|x| out[(k * 12 + x) % m].clone()).collect()
}

fn run(name: String, rocks: bool, jobs: Vec<(usize, How)>) -> Box<dyn Part> {
    let texts: Vec<String> = jobs.iter().map(|(n, h)| text(*n, h)).collect();
    let nm = name.clone();
    let mut s: Option<Setup> = None;
    cases(
        &name,
        jobs.len() as u64,
        move |i, env| {
            let (n, how) = &jobs[i as usize];
            let what = text(*n, how);
            let fail = |e: String| Fail::new(&format!("{nm} {what}"), format!("{nm}: {what}: {e}"));
            if s.is_none() {
                s = Some(setup(rocks, env).map_err(fail)?);
            }
            let r = trial(s.as_ref().unwrap(), *n, how, env);
            if !matches!(r, Ok((true, _))) {
                drop_setup(&mut s);
            }
            r.map(|_| ()).map_err(fail)
        },
        move |i| texts[i as usize].clone(),
    )
}

fn drop_setup(s: &mut Option<Setup>) {
    if let Some(Setup { held: Held::Rocks(d, p), .. }) = s.take() {
        drop(d);
        let _ = std::fs::remove_dir_all(p);
    }
}

fn text(n: usize, h: &How) -> String {
    let some = |x: usize| if x == usize::MAX { "all".to_string() } else { x.to_string() };
    match h {
        How::Whole => format!("{n} items"),
        How::Relay(c) => format!(
            "{n} items, connection {} after {} bytes sent, {} received, {} at a time",
            if c.reset { "reset" } else { "closed" },
            some(c.up),
            some(c.down),
            some(c.chunk)
        ),
        How::Bad(k, w, _) => format!("{n} items, item {k}: {w}"),
        How::Leave(k, ms, all) => format!("{n} items, client {} after {k}, {ms} ms later", if *all { "resets" } else { "dies" }),
        How::Drop(k) => format!("{n} items, future dropped after {k} polls"),
    }
}

/// Every byte of an upload as the place to cut, found by a first upload.
struct Cuts {
    name: String,
    rocks: bool,
    n: usize,
    step: usize,
    total: u64,
    lens: Option<Passed>,
    s: Option<Setup>,
}
impl Cuts {
    /// Uploads of `n` items take no more than this many bytes either way.
    fn bound(n: usize) -> u64 {
        900 + 90 * n as u64
    }
}
const DOWN: u64 = 400;
impl Part for Cuts {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.total
    }
    fn text(&self, i: u64) -> String {
        format!("cut {i}")
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let name = self.name.clone();
        let fail = |w: &str, e: String| Fail::new(&format!("{name} {w}"), format!("{name}: {w}: {e}"));
        if self.lens.is_none() {
            let s = setup(self.rocks, env).map_err(|e| fail("setup", e))?;
            let r = trial(&s, self.n, &How::Relay(WHOLE), env);
            drop_setup(&mut Some(s));
            let p = r.map_err(|e| fail("whole upload", e))?.1;
            if p.up as u64 > Cuts::bound(self.n) || p.down as u64 > DOWN || p.ended == 0 {
                return Err(fail("harness", format!("an upload of {} items took {p:?}", self.n)));
            }
            self.lens = Some(p);
        }
        let p = self.lens.as_ref().unwrap();
        // Past the end there is nothing to cut; a few bytes more, as the
        // lengths vary a little.
        let reset = i % 2 == 1;
        let k = (i / 2) as usize;
        let ups = Cuts::bound(self.n) as usize / self.step;
        let cut = if k < ups {
            let at = k * self.step;
            if at > p.up + 40 {
                return Ok(());
            }
            Cut { up: at, reset, ..WHOLE }
        } else {
            let at = k - ups;
            if at > p.down + 40 {
                return Ok(());
            }
            Cut { down: at, reset, ..WHOLE }
        };
        let how = How::Relay(cut);
        let what = text(self.n, &how);
        if self.s.is_none() {
            self.s = Some(setup(self.rocks, env).map_err(|e| fail("setup", e))?);
        }
        let r = trial(self.s.as_ref().unwrap(), self.n, &how, env);
        if !matches!(r, Ok((true, _))) {
            drop_setup(&mut self.s);
        }
        env.count("connections cut", 1);
        r.map(|_| ()).map_err(|e| fail(&what, e))
    }
    fn close(&mut self) {
        drop_setup(&mut self.s);
    }
}

pub fn c23(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    for rocks in [false, true] {
        let st = if rocks { "Rocks" } else { "Mem" };
        // Acknowledged uploads of every size.
        let sizes: Vec<usize> = if t {
            (0..=310).chain([499, 500, 501, 999, 1000, 1001, 1999, 2000, 2001, 10000, 50000]).collect()
        } else {
            (0..=12).chain([49, 50, 51, 97, 98, 99, 100, 101, 102, 103, 199, 200, 201, 202, 203, 299, 300, 301, 1000, 1001, 3000]).collect()
        };
        p.push(run(format!("acknowledged/{st}"), rocks, sizes.iter().map(|n| (*n, How::Whole)).collect()));
        // In small pieces.
        let pieces = (1..=(if t { 40 } else { 12 })).map(|c| (7, How::Relay(Cut { chunk: c, ..WHOLE }))).collect();
        p.push(run(format!("in pieces/{st}"), rocks, pieces));
        // A malformed item at every position.
        let mut jobs = vec![];
        let at: Vec<(usize, usize)> = if t && !rocks {
            let mut v: Vec<(usize, usize)> = (1..=12).flat_map(|n| (0..n).map(move |k| (n, k))).collect();
            v.extend((0..=205).map(|k| (206, k)));
            v.extend([(1001, 999), (1001, 1000), (5000, 4999)]);
            v
        } else {
            let mut v: Vec<(usize, usize)> = (1..=6).flat_map(|n| (0..n).map(move |k| (n, k))).collect();
            v.extend([98, 99, 100, 101, 102, 198, 199, 200, 201, 202].map(|k| (203, k)));
            v.extend([(100, 99), (101, 100), (1001, 1000)]);
            v
        };
        for (x, (n, k)) in at.iter().enumerate() {
            for (w, c) in spoiled(x) {
                jobs.push((*n, How::Bad(*k, w, c)));
            }
        }
        p.push(run(format!("malformed item/{st}"), rocks, jobs));
        // The client leaves.
        let ks: Vec<usize> = if t && !rocks { (0..=210).collect() } else { vec![0, 1, 2, 3, 5, 10, 50, 98, 99, 100, 101, 102, 150, 199, 200, 201, 250] };
        let mut jobs = vec![];
        for k in &ks {
            for ms in [0, 3] {
                for all in [true, false] {
                    jobs.push((300, How::Leave(*k, ms, all)));
                }
            }
        }
        for n in [1, 3, 100, 300] {
            for k in 0..(if t { 16 } else { 6 }) {
                jobs.push((n, How::Drop(k)));
            }
        }
        p.push(run(format!("client leaves/{st}"), rocks, jobs));
        // The connection is cut.
        let mut plans = vec![(1, 1), (4, 1)];
        if !rocks || t {
            plans.push((250, if t { 3 } else { 41 }));
        }
        if t {
            plans.extend([(0, 1), (2, 1), (12, 1)]);
        }
        for (n, step) in plans {
            let total = 2 * (Cuts::bound(n) / step as u64 + DOWN);
            p.push(Box::new(Cuts { name: format!("cut connections, {n} items/{st}"), rocks, n, step, total, lens: None, s: None }));
        }
        // Every list of items, items that repeat or contradict others among them.
        let some = [bv(3, "x"), be(3, "t", 1), bvp(1, "p", "1"), bvp(1, "p", "2"), bep(1, "t", 2, "p", "1"), bep(1, "t", 2, "p", "2"), bvp(3, "q", "1"), be(1, "t", 2)];
        let longest = match (t, rocks) {
            (true, false) => 5,
            (true, true) | (false, false) => 4,
            _ => 3,
        };
        let mut seqs: Vec<Vec<Op>> = vec![];
        let mut lists: Vec<Vec<BulkInsertItem>> = vec![vec![]];
        for _ in 0..longest {
            lists = lists.iter().flat_map(|l| some.iter().map(move |i| l.iter().cloned().chain([i.clone()]).collect())).collect();
            seqs.extend(lists.iter().map(|l| vec![Op::Bulk(l.clone())]));
        }
        let u = Universe::new(&[1, 2, 3], &["x", "y"], &["t"], &["p", "q"], &["0", "1", "2"]);
        let mut sc = Scope::new("lists", if rocks { Store::NetRocks } else { Store::NetMem }, vec![], u);
        sc.prefix = base();
        sc.observe = Depth::Core;
        sc.end_only = true;
        p.push(Listed::new(sc, seqs));
    }
    p
}
