//! C24: failures are reported as failures, and end with the request.
use crate::faulty::*;
use crate::net::*;
use crate::proxy::*;
use crate::raw::Raw;
use crate::wire::*;
use indradb::{Database, Datastore, MemoryDatastore, Query, RocksdbDatastore};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{take_panic, Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use std::path::PathBuf;
use std::sync::atomic::Ordering;
use std::sync::Arc;

type Parts = Vec<Box<dyn Part>>;

#[derive(Clone, Debug)]
enum Req {
    Op(Op),
    FromType(String),
}
impl Req {
    fn text(&self) -> String {
        match self {
            Req::Op(o) => optext(o),
            Req::FromType(t) => format!("create_vertex_from_type({t})"),
        }
    }
    fn writes(&self) -> bool {
        !matches!(self, Req::Op(Op::Get(_)) | Req::Op(Op::Sync))
    }
}

/// A store that fails on command, served.
trait Target {
    fn ctl(&self) -> &Ctl;
    fn ask(&self, r: &Req) -> Ans;
    /// The server answers, and its database is as described.
    fn sound(&self, m: &Model, bat: &[Query]) -> Result<(), String>;
    fn answers(&self, m: &Model, q: &Query) -> Result<(), String>;
    fn stop(&mut self) -> Result<(), String>;
}
struct Real<D: Datastore + Send + Sync + 'static> {
    remote: Remote<Faulty<D>>,
    ctl: Arc<Ctl>,
}
impl<D: Datastore + Send + Sync + 'static> Target for Real<D> {
    fn ctl(&self) -> &Ctl {
        &self.ctl
    }
    fn ask(&self, r: &Req) -> Ans {
        match r {
            Req::Op(o) => self.remote.run(o),
            Req::FromType(t) => match self.remote.call(|mut c| async move { c.create_vertex_from_type(ident(t)).await }) {
                Ok(_) => Ans::Ok,
                Err(e) => Ans::Err(e),
            },
        }
    }
    fn sound(&self, m: &Model, bat: &[Query]) -> Result<(), String> {
        self.remote.call(|mut c| async move { c.ping().await }).map_err(|e| format!("the server no longer answers: {e}"))?;
        verify(&self.remote, m, &Query::AllVertex).map_err(|e| format!("the server no longer answers properly: {e}"))?;
        check_state(&*self.remote.db, m, bat).map(|_| ())
    }
    fn answers(&self, m: &Model, q: &Query) -> Result<(), String> {
        check_query(&self.remote, m, q)
    }
    fn stop(&mut self) -> Result<(), String> {
        self.remote.stop()
    }
}

fn served<D: Datastore + Send + Sync + 'static>(d: D) -> Result<Box<dyn Target>, String> {
    let (f, ctl) = Faulty::new(d);
    Ok(Box::new(Real { remote: Remote::new(Database::new(f))?, ctl }))
}

struct Stand {
    t: Box<dyn Target>,
    path: Option<PathBuf>,
    m: Model,
}
impl Stand {
    fn new(rocks: bool, ops: &[Op], env: &mut Env) -> Result<Stand, String> {
        let mut m = Model::default();
        let mut path = None;
        let t = if rocks {
            let p = env.fresh_path();
            let db = open_rocks(&p)?;
            for o in ops {
                db.run(o);
                apply_model(&mut m, o, &db)?;
            }
            path = Some(p);
            served::<RocksdbDatastore>(db.datastore)?
        } else {
            let db = MemoryDatastore::new_db();
            for o in ops {
                db.run(o);
                apply_model(&mut m, o, &db)?;
            }
            served::<MemoryDatastore>(db.datastore)?
        };
        Ok(Stand { t, path, m })
    }
}
impl Drop for Stand {
    fn drop(&mut self) {
        let _ = self.t.stop();
        if let Some(p) = &self.path {
            let _ = std::fs::remove_dir_all(p);
        }
    }
}

fn graph() -> Vec<Op> {
    query_graphs()[0].clone()
}
fn uni() -> Universe {
    Universe::new(&[NIL, 7, MAXID], &["x", "y"], &["t", "u"], &["p", "q"], &["1", "2"])
}

/// A request without failure, then with a failure at each of the calls that
/// it made.
fn failing(name: String, rocks: bool, reqs: Vec<Req>, modes: Vec<Mode>) -> Box<dyn Part> {
    let n = reqs.len() as u64;
    let texts: Vec<String> = reqs.iter().map(|r| r.text()).collect();
    let bat = battery(&uni(), Depth::Core);
    let mut stand: Option<Stand> = None;
    let nm = name.clone();
    cases(
        &name,
        n,
        move |i, env| {
            let r = &reqs[i as usize];
            let fail = |w: &str, e: String| Fail::new(&format!("{nm} {} {w}", r.text()), format!("{nm}: {}{w}: {e}", r.text()));
            if stand.is_none() {
                stand = Some(Stand::new(rocks, &graph(), env).map_err(|e| fail("", e))?);
            }
            let s = stand.as_ref().unwrap();
            s.t.ctl().arm(u64::MAX, Mode::Panic);
            let plain = s.t.ask(r);
            let (calls, _) = s.t.ctl().disarm();
            let mut after = s.m.clone();
            let want = match r {
                Req::Op(Op::Get(q)) => {
                    s.t.answers(&s.m, q).map_err(|e| fail("", e))?;
                    Some(plain.clone())
                }
                Req::Op(o) => Some(after_of(&mut after, o).map_err(|e| fail("", e))?),
                Req::FromType(_) => None,
            };
            match &want {
                Some(w) if *w != plain => return Err(fail("", format!("answered {}, expected {}", ans_text(&plain), ans_text(w)))),
                _ => {}
            }
            env.count("requests made", 1);
            if r.writes() {
                stand = None;
            }
            for mode in &modes {
                if let (Mode::After(_), false) = (mode, r.writes()) {
                    continue;
                }
                for at in 0..calls {
                    if stand.is_none() {
                        stand = Some(Stand::new(rocks, &graph(), env).map_err(|e| fail("", e))?);
                    }
                    let s = stand.as_ref().unwrap();
                    take_panic();
                    s.t.ctl().arm(at, *mode);
                    PANICS.store(*mode == Mode::Panic, Ordering::SeqCst);
                    let got = s.t.ask(r);
                    PANICS.store(false, Ordering::SeqCst);
                    let (_, fired) = s.t.ctl().disarm();
                    take_panic();
                    env.count("requests made", 1);
                    let place = format!(", call {at} ({}), {mode:?}", fired.unwrap_or("not reached"));
                    let fail = |e: String| fail(&place, e);
                    match (&got, fired) {
                        (Ans::Err(e), Some(_)) if !e.starts_with("no answer") => env.count("failures reported", 1),
                        (Ans::Err(_), None) if matches!(want, Some(Ans::Err(_))) => continue,
                        (Ans::Err(e), _) => return Err(fail(format!("the client got: {e}"))),
                        (a, Some(_)) => return Err(fail(format!("the client was told {}", ans_text(a)))),
                        (a, None) => {
                            // Nothing can fail here in this way.
                            if let Req::Op(Op::Get(q)) = r {
                                s.t.answers(&s.m, q).map_err(|e| fail(e))?;
                            } else if want.as_ref().is_some_and(|w| w != a) {
                                return Err(fail(format!("answered {}", ans_text(a))));
                            }
                            if r.writes() {
                                stand = None;
                            }
                            continue;
                        }
                    }
                    match s.t.sound(&s.m, &bat) {
                        Ok(()) => {}
                        Err(e) => match (mode, r) {
                            (Mode::After(_), Req::FromType(_)) => stand = None,
                            (Mode::After(_), _) if s.t.sound(&after, &bat).is_ok() => stand = None,
                            _ => return Err(fail(format!("then {e}"))),
                        },
                    }
                }
            }
            Ok(())
        },
        move |i| texts[i as usize].clone(),
    )
}

/// The request of the model; without latitude.
fn after_of(m: &mut Model, o: &Op) -> Result<Ans, String> {
    let db = MemoryDatastore::new_db();
    for o in graph() {
        db.run(&o);
    }
    db.run(o);
    apply_model(m, o, &db)
}

fn requests(depths: &[usize], big: bool) -> Vec<Req> {
    let mut v: Vec<Req> = vec![Req::FromType("x".into())];
    let mut ops = vec![
        cv(1, "x"),
        cv(7, "x"),
        ce(7, "u", NIL),
        ce(NIL, "t", 7),
        ce(1, "t", 2),
        index("q"),
        index("p"),
        index("r"),
        Op::Sync,
        Op::Bulk(vec![]),
        Op::Bulk(vec![bv(1, "x"), be(1, "t", 7), bvp(1, "p", "1"), bep(1, "t", 7, "p", "2")]),
    ];
    // Longest, and the last only.
    let (so, st) = (query_sources(big), query_stages(big));
    let ok = |q: &Query| {
        let mut m = Model::default();
        for o in graph() {
            let db = MemoryDatastore::new_db();
            let _ = apply_model(&mut m, &o, &db);
        }
        m.eval(q).is_ok()
    };
    let mut qs = vec![];
    for d in depths {
        for i in 0..(so.len() * st.len().pow(*d as u32)) as u64 {
            let q = nth_query(&so, &st, *d, i);
            if ok(&q) {
                qs.push(q);
            }
        }
    }
    for q in &qs {
        ops.push(Op::Get(q.clone()));
    }
    // What a limit cuts off is not determined.
    for q in qs.iter().filter(|q| !cuts(q)).filter(|q| inner(q).is_none() || inner(q).is_some_and(|i| inner(i).is_none())) {
        ops.push(Op::Delete(q.clone()));
        ops.push(Op::Set(q.clone(), "p".into(), j("5")));
    }
    v.extend(ops.into_iter().map(Req::Op));
    v
}

/// Results that stream while the client goes away.
#[derive(Clone, Debug)]
enum Leave {
    /// The connection ends after these bytes of the answer.
    Cut(usize, bool),
    /// The call is dropped after this many parts.
    Parts(usize),
    /// The client's future is dropped after this many polls.
    Polls(usize),
}

/// A result of `outs` parts of about `size` bytes each.
fn streamed(size: usize, outs: usize) -> (Vec<Op>, Query) {
    let text = "z".repeat(size);
    let mut ops = vec![cv(1, "x"), cv(2, "y"), index("p"), Op::Set(q_v(id(1)), "p".into(), j(&format!("\"{text}\"")))];
    ops.push(Op::Set(q_v(id(2)), "p".into(), j("1")));
    // Included stages are parts of their own.
    let mut q = q_incl(q_props(q_v(id(1)), None));
    if outs > 1 {
        q = Query::AllVertex;
        for _ in 1..outs {
            q = q_incl(q);
        }
        q = q_props(q, Some("p"));
    }
    (ops, q)
}

fn leaving(name: String, rocks: bool, size: usize, outs: usize, jobs: Vec<Leave>) -> Box<dyn Part> {
    let texts: Vec<String> = jobs.iter().map(|j| format!("{j:?}")).collect();
    let nm = name.clone();
    let mut held: Option<(Box<dyn Target>, std::net::SocketAddr, Model, Option<PathBuf>)> = None;
    let (ops, q) = streamed(size, outs);
    cases(
        &name,
        jobs.len() as u64,
        move |i, env| {
            let job = &jobs[i as usize];
            let fail = |e: String| Fail::new(&format!("{nm} {job:?}"), format!("{nm}: {job:?}: {e}"));
            if held.is_none() {
                held = Some(stand_at(rocks, &ops, env).map_err(fail)?);
            }
            let (t, addr, m, _) = held.as_ref().unwrap();
            take_panic();
            let r = leave(job, *addr, m, &q, env);
            if let Some(p) = take_panic() {
                return Err(fail(format!("a panic: {p}")));
            }
            r.map_err(fail)?;
            let bat = [Query::AllVertex, q.clone()];
            t.sound(m, &bat).map_err(|e| fail(format!("then {e}")))?;
            env.count("clients gone", 1);
            Ok(())
        },
        move |i| texts[i as usize].clone(),
    )
}

fn stand_at(rocks: bool, ops: &[Op], env: &mut Env) -> Result<(Box<dyn Target>, std::net::SocketAddr, Model, Option<PathBuf>), String> {
    fn go<D: Datastore + Send + Sync + 'static>(d: D) -> Result<(Box<dyn Target>, std::net::SocketAddr), String> {
        let (f, ctl) = Faulty::new(d);
        let remote = Remote::new(Database::new(f))?;
        let addr = remote.addr;
        Ok((Box::new(Real { remote, ctl }), addr))
    }
    let mut m = Model::default();
    if rocks {
        let p = env.fresh_path();
        let db = open_rocks(&p)?;
        for o in ops {
            db.run(o);
            apply_model(&mut m, o, &db)?;
        }
        let (t, a) = go(db.datastore)?;
        Ok((t, a, m, Some(p)))
    } else {
        let db = MemoryDatastore::new_db();
        for o in ops {
            db.run(o);
            apply_model(&mut m, o, &db)?;
        }
        let (t, a) = go(db.datastore)?;
        Ok((t, a, m, None))
    }
}

fn leave(job: &Leave, addr: std::net::SocketAddr, m: &Model, q: &Query, env: &mut Env) -> Result<(), String> {
    match job {
        Leave::Cut(at, reset) => {
            let p = Proxy::new(addr, Cut { down: *at, reset: *reset, ..WHOLE })?;
            let a = p.addr;
            let q1 = q.clone();
            let got = wait(async move {
                let mut c = connect(a).await.ok()?;
                c.get(q1).await.ok()
            })?;
            p.passed()?;
            match got {
                None => env.count("cut answers refused", 1),
                Some(o) => {
                    let got = Ans::Out(o.iter().map(|x| mout(x).sorted()).collect());
                    let want = match expect(m, q) {
                        Ans::Out(o) => Ans::Out(o.into_iter().map(|x| x.sorted()).collect()),
                        e => e,
                    };
                    if got != want {
                        return Err(format!("an answer that was cut was taken for {:.300}", ans_text(&got)));
                    }
                    env.count("answers that were whole", 1);
                }
            }
        }
        Leave::Parts(n) => {
            let raw = Raw::new(addr)?;
            let body = w_query(q).body();
            let n = *n;
            wait(async move { raw.begin("Get", vec![body], n).await })?.map_err(|e| e.to_string())?;
        }
        Leave::Polls(n) => {
            let mut c = wait(connect(addr))??;
            let q = q.clone();
            let mut left = *n;
            wait(async move {
                let mut f = Box::pin(c.get(q));
                std::future::poll_fn(|cx| {
                    if left == 0 {
                        return std::task::Poll::Ready(());
                    }
                    left -= 1;
                    f.as_mut().poll(cx).map(|_| ())
                })
                .await;
            })?;
        }
    }
    Ok(())
}
use std::future::Future;

/// The bytes of a whole answer, at most.
fn answer_len(size: usize, outs: usize) -> usize {
    size + 100 * outs + 500
}

pub fn c24(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    for rocks in [false, true] {
        let st = if rocks { "Rocks" } else { "Mem" };
        let small = requests(&[0, 1], t);
        // Each kind of error at each place.
        let mut modes: Vec<Mode> = KINDS.iter().map(|k| Mode::Before(*k)).collect();
        modes.extend([Mode::After(Kind::Datastore), Mode::After(Kind::Io), Mode::Last(Kind::Datastore), Mode::On(Kind::Datastore)]);
        if rocks && !t {
            modes.drain(1..7);
        }
        p.push(failing(format!("failing calls/{st}"), rocks, small.clone(), modes));
        if rocks {
            // Here nothing is locked while a call panics.
            p.push(failing(format!("panics/{st}"), rocks, small, vec![Mode::Panic]));
        }
        let deep: Vec<Req> = requests(&[2], t).into_iter().filter(|r| !r.writes()).collect();
        p.push(failing(format!("failing calls, composed/{st}"), rocks, deep, if t { vec![Mode::Before(Kind::Datastore), Mode::Last(Kind::Io)] } else { vec![Mode::Before(Kind::Datastore)] }));
        if t && !rocks {
            let deep: Vec<Req> = requests(&[3], false).into_iter().filter(|r| !r.writes()).collect();
            p.push(failing(format!("failing calls, deeply composed/{st}"), rocks, deep, vec![Mode::Before(Kind::Datastore)]));
        }
        // Clients that leave. Every byte of a short answer, some of long ones.
        for (size, outs, step) in [(3, 4, 1), (300_000, 1, if t { 997 } else { 20_011 }), (3, 40, 7)] {
            let len = answer_len(size, outs);
            let mut jobs: Vec<Leave> = (0..len / step).flat_map(|k| [Leave::Cut(k * step, false), Leave::Cut(k * step, true)]).collect();
            jobs.extend((0..=outs + 1).map(Leave::Parts));
            jobs.extend((0..12).map(Leave::Polls));
            p.push(leaving(format!("clients leave, {outs} parts of {size}/{st}"), rocks, size, outs, jobs));
        }
        let size = 12_000_000;
        p.push(leaving(format!("clients leave, a part of {size}/{st}"), rocks, size, 1, {
            let mut v: Vec<Leave> = [0, 1, 20_000, 70_000, 1_000_000, 6_000_000, 12_000_000].iter().map(|k| Leave::Cut(*k, false)).collect();
            v.extend((0..=1).map(Leave::Parts));
            v
        }));
    }
    p
}
