//! C31: the clients of one server neither disturb nor hold up each other.
//!
//! The server runs on a single thread (its blocking calls have threads of
//! their own, as always), over a store whose calls wait on command: a request
//! that should keep waiting for the store, but keeps the server, is seen.
use crate::cli;
use crate::faulty::*;
use crate::net::*;
use crate::plug::{place, said, told};
use crate::raw::Raw;
use crate::wire::*;
use indradb::{Database, Datastore, MemoryDatastore, Query, QueryOutputValue, RocksdbDatastore};
use indradb_proto::{Client, ClientError};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{take_panic, Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use serde_json::json;
use std::collections::HashMap;
use std::future::Future;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};
use uuid::Uuid;

type Parts = Vec<Box<dyn Part>>;

#[derive(Clone, Debug)]
enum Req {
    Ping,
    Op(Op),
    FromType(String),
}
impl Req {
    fn text(&self) -> String {
        match self {
            Req::Ping => "ping".into(),
            Req::Op(o) => optext(o),
            Req::FromType(t) => format!("create_vertex_from_type({t})"),
        }
    }
    fn writes(&self) -> bool {
        match self {
            Req::Ping => false,
            Req::Op(o) => !matches!(o, Op::Get(_) | Op::Sync),
            Req::FromType(_) => true,
        }
    }
    /// Nothing is read before all is written.
    fn single(&self) -> bool {
        match self {
            Req::Op(Op::Delete(_) | Op::Set(..) | Op::Get(_) | Op::Plug(_)) => false,
            _ => true,
        }
    }
}

/// An answer; for a vertex made from a type, its id too.
#[derive(Clone, Debug)]
struct Got(Ans, Option<Uuid>);

struct Via<'a>(&'a Client);
impl Calls for Via<'_> {
    fn call<T, F: Future<Output = Result<T, ClientError>>>(&self, f: impl FnOnce(Client) -> F) -> Result<T, String> {
        call_with(self.0.clone(), f)
    }
}

fn ask(c: &Client, r: &Req) -> Got {
    let c = Via(c);
    let unit = |r: Result<(), String>| match r {
        Ok(()) => Ans::Ok,
        Err(e) => Ans::Err(e),
    };
    match r {
        Req::Ping => Got(unit(c.call(|mut c| async move { c.ping().await })), None),
        Req::Op(Op::Plug(o)) => {
            let a = indradb::Json::new(told(o));
            let r = c.call(|mut c| async move { c.execute_plugin("do", a).await }).map(|v| (*v.0).clone());
            Got(said(o, r), None)
        }
        Req::Op(o) => Got(run_by(&c, o), None),
        Req::FromType(t) => match c.call(|mut c| async move { c.create_vertex_from_type(ident(t)).await }) {
            Ok(i) => Got(Ans::Ok, Some(i)),
            Err(e) => Got(Ans::Err(e), None),
        },
    }
}

/// A request under way.
struct Running {
    rx: mpsc::Receiver<Got>,
    got: std::cell::RefCell<Option<Got>>,
}
impl Running {
    fn start(c: &Client, r: &Req) -> Running {
        let (c, r) = (c.clone(), r.clone());
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let _ = tx.send(ask(&c, &r));
        });
        Running { rx, got: Default::default() }
    }
    fn done(&self) -> bool {
        let mut g = self.got.borrow_mut();
        if g.is_none() {
            *g = self.rx.try_recv().ok();
        }
        g.is_some()
    }
    fn get(&self) -> Result<Got, String> {
        if !self.done() {
            *self.got.borrow_mut() = Some(self.rx.recv_timeout(PATIENCE + Duration::from_secs(5)).map_err(|_| "no answer".to_string())?);
        }
        Ok(self.got.borrow().clone().unwrap())
    }
}

/// Tells what a bulk insertion made of what may be either way; here it may not.
fn told_of() -> Database<MemoryDatastore> {
    let db = MemoryDatastore::new_db();
    db.run(&cv(3, "x"));
    db.run(&cv(4, "y"));
    db
}

/// What the request should answer, applied to the model.
fn apply(m: &mut Model, r: &Req, got: &Got) -> Result<Ans, String> {
    match r {
        Req::Ping => Ok(Ans::Ok),
        Req::Op(Op::Get(q)) => Ok(match expect(m, q) {
            Ans::Out(o) => Ans::Out(o.into_iter().map(|x| x.sorted()).collect()),
            e => e,
        }),
        Req::Op(o) => apply_model(m, o, &told_of()),
        Req::FromType(t) => {
            let Some(i) = got.1 else { return Ok(Ans::Ok) };
            match apply_model(m, &Op::CreateVertex(i, t.clone()), &MemoryDatastore::new_db())? {
                Ans::Created(true) => Ok(Ans::Ok),
                _ => Ok(Ans::Err(format!("an id that was taken: {i}"))),
            }
        }
    }
}

/// Carried out in this order: the answers, and what it all leads to.
fn in_order(m: &Model, rs: &[(&Req, &Got)]) -> Result<(Model, Result<(), String>), String> {
    let mut m = m.clone();
    let mut bad = Ok(());
    for (r, g) in rs {
        let want = apply(&mut m, r, g)?;
        if want != g.0 && bad.is_ok() {
            bad = Err(format!("{} answered {}, expected {}", r.text(), ans_text(&g.0), ans_text(&want)));
        }
    }
    Ok((m, bad))
}

/// A store whose calls can be made to wait, served.
trait Target {
    fn ctl(&self) -> &Ctl;
    fn addr(&self) -> SocketAddr;
    fn check(&self, m: &Model, bat: &[Query]) -> Result<(), String>;
    fn stop(&mut self) -> Result<(), String>;
}
struct Real<D: Datastore + Send + Sync + 'static> {
    remote: Remote<Faulty<D>>,
    ctl: Arc<Ctl>,
}
impl<D: Datastore + Send + Sync + 'static> Target for Real<D> {
    fn ctl(&self) -> &Ctl {
        &self.ctl
    }
    fn addr(&self) -> SocketAddr {
        self.remote.addr
    }
    fn check(&self, m: &Model, bat: &[Query]) -> Result<(), String> {
        check_state(&*self.remote.db, m, bat).map(|_| ())
    }
    fn stop(&mut self) -> Result<(), String> {
        self.remote.stop()
    }
}

struct Stand {
    t: Box<dyn Target>,
    path: Option<PathBuf>,
    m: Model,
    /// Connections.
    cs: Vec<Client>,
    plugs: bool,
}
fn plugs(rs: &[&Req]) -> bool {
    rs.iter().any(|r| matches!(r, Req::Op(Op::Plug(_))))
}
impl Stand {
    /// Served as for requests such as these: with plugins, if one calls them.
    fn new(rocks: bool, ops: &[Op], cs: usize, rs: &[&Req], env: &mut Env) -> Result<Stand, String> {
        let plugs = plugs(rs);
        let pat = plugs.then(|| plugin(env).to_string_lossy().to_string());
        fn go<D: Datastore + Send + Sync + 'static>(db: Database<D>, pat: Option<String>, ops: &[Op], m: &mut Model) -> Result<Box<dyn Target>, String> {
            for o in ops {
                db.run(o);
                apply_model(m, o, &db)?;
            }
            let (f, ctl) = Faulty::new(db.datastore);
            let remote = Remote::on(srv(), Arc::new(Database::new(f)), 1, pat)?;
            Ok(Box::new(Real { remote, ctl }))
        }
        let mut m = Model::default();
        let (t, path) = if rocks {
            let p = env.fresh_path();
            (go::<RocksdbDatastore>(open_rocks(&p)?, pat, ops, &mut m)?, Some(p))
        } else {
            (go::<MemoryDatastore>(MemoryDatastore::new_db(), pat, ops, &mut m)?, None)
        };
        let mut s = Stand { t, path, m, cs: vec![], plugs };
        for _ in 0..cs {
            s.cs.push(wait(connect(s.t.addr()))??);
        }
        Ok(s)
    }
    fn ping(&self, c: usize) -> Result<(), String> {
        match ask(&self.cs[c], &Req::Ping).0 {
            Ans::Ok => Ok(()),
            a => Err(format!("a ping was answered {}", ans_text(&a))),
        }
    }
    /// Another client comes.
    fn newcomer(&self) -> Result<(), String> {
        let c = wait(connect(self.t.addr()))?.map_err(|e| format!("another client: {e}"))?;
        match ask(&c, &Req::Ping).0 {
            Ans::Ok => Ok(()),
            a => Err(format!("another client's ping was answered {}", ans_text(&a))),
        }
    }
}
impl Drop for Stand {
    fn drop(&mut self) {
        self.t.ctl().release_all();
        self.cs.clear();
        let _ = self.t.stop();
        if let Some(p) = &self.path {
            let _ = std::fs::remove_dir_all(p);
        }
    }
}

/// The plugins' library.
fn plugin(env: &Env) -> PathBuf {
    let at = env.scratch.join("c31plugin").join("libapart.so");
    if !at.exists() {
        place(&at, json!({ "names": ["do"] }));
    }
    at
}

fn graph() -> Vec<Op> {
    query_graphs()[0].clone()
}
fn uni() -> Universe {
    Universe::new(&[NIL, 1, 3, 4, 7, MAXID], &["x", "y"], &["t", "u"], &["p", "q"], &["1", "2", "5"])
}
fn plug(o: Op) -> Req {
    Req::Op(Op::Plug(Box::new(o)))
}

/// One request of each kind, and more where what they do differs.
fn requests(big: bool) -> Vec<Req> {
    let o = |o| Req::Op(o);
    let get = |q| Req::Op(Op::Get(q));
    let mut v = vec![
        Req::Ping,
        o(Op::Sync),
        get(Query::AllVertex),
        get(q_props(q_vhas("p"), None)),
        o(cv(1, "x")),
        Req::FromType("y".into()),
        o(ce(7, "u", NIL)),
        o(dv(7)),
        o(Op::Set(Query::AllVertex, "p".into(), j("5"))),
        o(index("q")),
        o(Op::Bulk(vec![bv(3, "x"), bv(4, "y"), be(3, "t", 4), bvp(3, "p", "1"), bep(3, "t", 4, "p", "2")])),
        plug(sv(NIL, "p", "2")),
    ];
    if big {
        v.extend([
            get(q_out(q_veq("p", &j("1")))),
            get(q_count(Query::AllEdge)),
            get(q_vhas("q")),
            get(q_incl(q_in(q_incl(q_v(id(7)))))),
            o(cv(7, "x")),
            o(ce(1, "t", 7)),
            o(Op::Delete(Query::AllEdge)),
            o(Op::Delete(q_props(q_ehas("p"), Some("p")))),
            o(Op::Set(q_e(&key(7, "t", 7)), "q".into(), j("5"))),
            plug(cv(1, "y")),
            plug(dv(NIL)),
            plug(index("q")),
            plug(Op::Sync),
        ]);
    }
    v
}
fn q_out(q: Query) -> Query {
    q_pipe(q, true, None, u32::MAX)
}
fn q_in(q: Query) -> Query {
    q_pipe(q, false, None, u32::MAX)
}

// ---- a request whose call to the store takes its time ------------------------

/// Two requests; the first waits at each of its calls, while the second comes.
fn held(name: String, rocks: bool, first: Vec<Req>, second: Vec<Req>) -> Box<dyn Part> {
    let jobs: Vec<(Req, Req)> = first.iter().flat_map(|a| second.iter().map(move |b| (a.clone(), b.clone()))).collect();
    let texts: Vec<String> = jobs.iter().map(|(a, b)| format!("{} held, then {}", a.text(), b.text())).collect();
    let bat = battery(&uni(), Depth::Core);
    let nm = name.clone();
    let mut calls: HashMap<String, u64> = HashMap::new();
    let mut kept: Option<Stand> = None;
    let n = jobs.len() as u64;
    let tx = texts.clone();
    cases(
        &name,
        n,
        move |i, env| {
            let (a, b) = &jobs[i as usize];
            let fail = |w: &str, e: String| Fail::new(&format!("{nm} {}{w}", texts[i as usize]), format!("{nm}: {}{w}: {e}", texts[i as usize]));
            let calls = match calls.get(&a.text()) {
                Some(n) => *n,
                None => {
                    let s = Stand::new(rocks, &graph(), 1, &[a], env).map_err(|e| fail("", e))?;
                    s.t.ctl().arm(u64::MAX, Mode::Wait);
                    let g = ask(&s.cs[0], a);
                    let n = s.t.ctl().disarm().0;
                    let (m, r) = in_order(&s.m, &[(a, &g)]).map_err(|e| fail("", e))?;
                    r.map_err(|e| fail(" (not held)", e))?;
                    s.t.check(&m, &bat).map_err(|e| fail(" (not held)", e))?;
                    calls.insert(a.text(), n);
                    n
                }
            };
            for at in 0..calls {
                let s = match kept.take() {
                    Some(s) if s.plugs == plugs(&[a, b]) => s,
                    _ => Stand::new(rocks, &graph(), 2, &[a, b], env).map_err(|e| fail("", e))?,
                };
                take_panic();
                s.t.ctl().arm(at, Mode::Wait);
                let ra = Running::start(&s.cs[0], a);
                if !s.t.ctl().parked(1, PATIENCE, || ra.done()) {
                    s.t.ctl().disarm();
                    if ra.done() {
                        // It does without.
                        continue;
                    }
                    return Err(fail("", format!("its call {at} to the store never came")));
                }
                let what = s.t.ctl().place().unwrap_or("?");
                let place = format!(", at its call {at} ({what})");
                let fail = |e: String| fail(&place, e);
                let go = || -> Result<(Got, Got), String> {
                    s.ping(0)?;
                    s.ping(1)?;
                    s.newcomer()?;
                    let rb = Running::start(&s.cs[1], b);
                    let before = what == "transaction";
                    if rocks || before || matches!(b, Req::Ping) {
                        let g = rb.get()?;
                        if let Ans::Err(e) = &g.0 {
                            if e.starts_with("no answer") {
                                return Err(format!("{} was held up: {e}", b.text()));
                            }
                        }
                        // Nothing has been done by the first one.
                        let (m, r) = in_order(&s.m, &[(b, &g)])?;
                        r.map_err(|e| format!("meanwhile {e}"))?;
                        if rocks && !before {
                            s.t.check(&m, &bat).map_err(|e| format!("meanwhile {e}"))?;
                        }
                    } else {
                        // It may need what the first one has.
                        let t = Instant::now();
                        while s.t.ctl().calls() <= at + 1 && !rb.done() && t.elapsed() < Duration::from_millis(100) {
                            std::thread::sleep(Duration::from_micros(50));
                        }
                        s.ping(0)?;
                        s.ping(1)?;
                        s.newcomer()?;
                    }
                    s.t.ctl().release_all();
                    Ok((ra.get()?, rb.get()?))
                };
                let got = go();
                s.t.ctl().disarm();
                let (ga, gb) = got.map_err(|e| fail(e))?;
                if let Some(p) = take_panic() {
                    return Err(fail(format!("a panic: {p}")));
                }
                env.count("requests held", 1);
                for (r, g) in [(a, &ga), (b, &gb)] {
                    if let Ans::Err(e) = &g.0 {
                        if e.starts_with("no answer") {
                            return Err(fail(format!("{}: {e}", r.text())));
                        }
                    }
                }
                let ba = in_order(&s.m, &[(b, &gb), (a, &ga)]).map_err(|e| fail(e))?;
                let ab = in_order(&s.m, &[(a, &ga), (b, &gb)]).map_err(|e| fail(e))?;
                // Once it has begun, a request of several calls may see what comes between.
                let mixed = rocks && at > 0 && !a.single() && b.writes();
                let bad = match (&ba.1, &ab.1) {
                    (Ok(()), _) if s.t.check(&ba.0, &bat).is_ok() => None,
                    (_, Ok(())) if at > 0 && s.t.check(&ab.0, &bat).is_ok() => None,
                    _ if mixed => {
                        env.count("results not judged", 1);
                        None
                    }
                    (Err(e), _) => Some(e.clone()),
                    _ => s.t.check(&ba.0, &bat).err().map(|e| format!("finally {e}")),
                };
                if let Some(e) = bad {
                    return Err(fail(e));
                }
                if !a.writes() && !b.writes() {
                    kept = Some(s);
                }
            }
            Ok(())
        },
        move |i| tx[i as usize].clone(),
    )
}

/// Many requests that all wait for the store, while others come; then they
/// are let go one by one, or at once.
fn crowd(name: String, rocks: bool, sizes: Vec<usize>, larger: Vec<usize>) -> Box<dyn Part> {
    let kinds = requests(true).into_iter().filter(|r| !matches!(r, Req::Ping)).collect::<Vec<_>>();
    let mut jobs: Vec<(usize, Option<usize>)> = vec![];
    for n in &sizes {
        jobs.extend((0..kinds.len()).map(|k| (*n, Some(k))));
        jobs.push((*n, None));
    }
    jobs.extend(larger.iter().map(|n| (*n, None)));
    let texts: Vec<String> = jobs.iter().map(|(n, k)| format!("{n} of {}", k.map_or("clients' own vertices".into(), |k| kinds[k].text()))).collect();
    let bat = battery(&uni(), Depth::Core);
    let nm = name.clone();
    let tx = texts.clone();
    cases(
        &name,
        jobs.len() as u64,
        move |i, env| {
            let (n, k) = jobs[i as usize];
            let fail = |e: String| Fail::new(&format!("{nm} {}", texts[i as usize]), format!("{nm}: {}: {e}", texts[i as usize]));
            let mut ops = graph();
            ops.extend((0..n as u128 / 2).flat_map(|i| [cv(1000 + i, "x"), sv(1000 + i, "mine", &i.to_string())]));
            let s = Stand::new(rocks, &ops, 4, &k.map(|k| &kinds[k]).into_iter().collect::<Vec<_>>(), env).map_err(fail)?;
            take_panic();
            // Each client's own: half of them read, half of them create.
            let own = |i: usize| match i < n / 2 {
                true => Req::Op(Op::Get(q_props(q_v(id(1000 + i as u128)), None))),
                false => Req::Op(cv(1000 + i as u128, "y")),
            };
            s.t.ctl().arm(n as u64, Mode::Begins);
            let go = || -> Result<(), String> {
                let mut m = s.m.clone();
                let mut rs = vec![];
                for i in 0..n {
                    let r = k.map_or_else(|| own(i), |k| kinds[k].clone());
                    let run = Running::start(&s.cs[1 + i % 3], &r);
                    // A client's own requests may come in any order.
                    if k.is_some() && !s.t.ctl().parked(i + 1, PATIENCE, || run.done()) {
                        return Err(format!("request {i} never came to the store"));
                    }
                    rs.push((r, run));
                }
                if !s.t.ctl().parked(n, PATIENCE, || false) {
                    return Err("not all requests came to the store".into());
                }
                for c in 0..4 {
                    s.ping(c).map_err(|e| format!("while all wait: {e}"))?;
                }
                s.newcomer().map_err(|e| format!("while all wait: {e}"))?;
                for r in [Req::Op(Op::Get(Query::AllEdge)), Req::Op(cv(77, "y"))] {
                    let g = ask(&s.cs[0], &r);
                    let (m1, r) = in_order(&m, &[(&r, &g)])?;
                    r.map_err(|e| format!("while all wait: {e}"))?;
                    m = m1;
                }
                if k.is_none() {
                    s.t.ctl().release_all();
                }
                for (i, (r, run)) in rs.iter().enumerate() {
                    if k.is_some() {
                        s.t.ctl().release(i);
                    }
                    let g = run.get()?;
                    let (m1, r) = in_order(&m, &[(r, &g)])?;
                    r.map_err(|e| format!("request {i}: {e}"))?;
                    m = m1;
                }
                s.t.check(&m, &bat)
            };
            let r = go();
            s.t.ctl().disarm();
            r.map_err(fail)?;
            if let Some(p) = take_panic() {
                return Err(fail(format!("a panic: {p}")));
            }
            env.count("requests held", n as u64);
            Ok(())
        },
        move |i| tx[i as usize].clone(),
    )
}

/// Requests that come in one order and reach the store in each other: the
/// answers are theirs.
fn orders(name: String, rocks: bool, reqs: Vec<Req>, k: usize, one: bool) -> Box<dyn Part> {
    fn perms(k: usize) -> Vec<Vec<usize>> {
        if k == 0 {
            return vec![vec![]];
        }
        let mut v = vec![];
        for p in perms(k - 1) {
            for i in 0..k {
                let mut p = p.clone();
                p.insert(i, k - 1);
                v.push(p);
            }
        }
        v
    }
    let n = reqs.len().pow(k as u32) as u64;
    let pick = move |reqs: &[Req], mut i: u64| -> Vec<Req> {
        (0..k)
            .map(|_| {
                let r = reqs[(i % reqs.len() as u64) as usize].clone();
                i /= reqs.len() as u64;
                r
            })
            .collect()
    };
    let text = move |reqs: &[Req], i: u64| pick(reqs, i).iter().map(|r| r.text()).collect::<Vec<_>>().join("; ");
    let bat = battery(&uni(), Depth::Core);
    let nm = name.clone();
    let rq = reqs.clone();
    let mut kept: Option<Stand> = None;
    cases(
        &name,
        n,
        move |i, env| {
            let rs = pick(&reqs, i);
            for p in perms(k) {
                let fail = |e: String| Fail::new(&format!("{nm} {} {p:?}", text(&reqs, i)), format!("{nm}: {}, let go in order {p:?}: {e}", text(&reqs, i)));
                let s = match kept.take() {
                    Some(s) if s.plugs == plugs(&rs.iter().collect::<Vec<_>>()) => s,
                    _ => Stand::new(rocks, &graph(), if one { 1 } else { k }, &rs.iter().collect::<Vec<_>>(), env).map_err(fail)?,
                };
                take_panic();
                s.t.ctl().arm(k as u64, Mode::Begins);
                let go = || -> Result<(), String> {
                    let mut run = vec![];
                    for (i, r) in rs.iter().enumerate() {
                        let x = Running::start(&s.cs[if one { 0 } else { i }], r);
                        if !s.t.ctl().parked(i + 1, PATIENCE, || x.done()) {
                            return Err(format!("{} never came to the store", r.text()));
                        }
                        run.push(x);
                    }
                    let mut m = s.m.clone();
                    for &i in &p {
                        s.t.ctl().release(i);
                        let g = run[i].get()?;
                        let (m1, r) = in_order(&m, &[(&rs[i], &g)])?;
                        r?;
                        m = m1;
                    }
                    s.t.check(&m, &bat)
                };
                let r = go();
                s.t.ctl().disarm();
                r.map_err(fail)?;
                if let Some(p) = take_panic() {
                    return Err(fail(format!("a panic: {p}")));
                }
                env.count("orders", 1);
                if rs.iter().all(|r| !r.writes()) {
                    kept = Some(s);
                }
            }
            Ok(())
        },
        move |i| text(&rq, i),
    )
}

// ---- uploads and downloads that take their time ------------------------------

struct Polled<F>(F);
impl<F: FnMut(&mut std::task::Context) -> std::task::Poll<Option<Vec<u8>>> + Unpin> tokio_stream::Stream for Polled<F> {
    type Item = Vec<u8>;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Option<Vec<u8>>> {
        (self.0)(cx)
    }
}

/// An upload that stops after some items; it is then ended, or left.
fn uploads(name: String, rocks: bool, mut second: Vec<Req>) -> Box<dyn Part> {
    // An upload without any of the first one's items.
    second.push(Req::Op(Op::Bulk(vec![bvp(7, "q", "3"), be(7, "u", 7)])));
    let items = vec![bv(3, "x"), bvp(3, "p", "1"), bv(4, "y"), be(3, "t", 4), bep(3, "t", 4, "p", "2"), be(MAXID, "u", 3), bvp(MAXID, "p", "5")];
    let jobs: Vec<(usize, bool, Req)> = (0..=items.len()).flat_map(|k| [true, false].map(|end| (k, end))).flat_map(|(k, end)| second.iter().map(move |r| (k, end, r.clone()))).collect();
    let texts: Vec<String> = jobs.iter().map(|(k, e, r)| format!("an upload that stops after {k} items, then {}, then it {}", r.text(), if *e { "goes on" } else { "is given up" })).collect();
    let bat = battery(&uni(), Depth::Core);
    let nm = name.clone();
    let tx = texts.clone();
    cases(
        &name,
        jobs.len() as u64,
        move |i, env| {
            let (k, end, r) = &jobs[i as usize];
            let fail = |e: String| Fail::new(&format!("{nm} {}", texts[i as usize]), format!("{nm}: {}: {e}", texts[i as usize]));
            let s = Stand::new(rocks, &graph(), 1, &[r], env).map_err(fail)?;
            take_panic();
            let raw = Raw::new(s.t.addr()).map_err(fail)?;
            let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<Vec<u8>>();
            for b in &items[..*k] {
                let _ = tx.send(w_item(b).body());
            }
            let r2 = raw.clone();
            let (sent, taken) = mpsc::channel();
            let mut taken_of = 0;
            let k2 = *k;
            let mut rx = rx;
            let stream = Polled(move |cx: &mut std::task::Context| {
                let item = rx.poll_recv(cx);
                taken_of += matches!(item, std::task::Poll::Ready(Some(_))) as usize;
                if taken_of >= k2 && item.is_pending() {
                    let _ = sent.send(());
                }
                item
            });
            let up = rt().spawn(async move { r2.call("BulkInsert", stream).await });
            // Far enough for the server to know of it: its items are sent, and
            // the server answers later requests of the same connection.
            taken.recv_timeout(PATIENCE).map_err(|_| fail("the upload does not begin".into()))?;
            for _ in 0..2 {
                let ping = raw.send("Ping", vec![vec![]]).map_err(|e| fail(format!("a ping on its connection: {e}")))?;
                ping.map_err(|e| fail(format!("a ping on its connection: {e}")))?;
                std::thread::sleep(Duration::from_millis(8));
            }
            let g = ask(&s.cs[0], r);
            let (m, ok) = in_order(&s.m, &[(r, &g)]).map_err(fail)?;
            ok.map_err(|e| fail(format!("meanwhile {e}")))?;
            s.t.check(&m, &bat).map_err(|e| fail(format!("meanwhile {e}")))?;
            if *end {
                for b in &items[*k..] {
                    let _ = tx.send(w_item(b).body());
                }
                drop(tx);
                let got = wait(up).map_err(|e| fail(format!("the upload: {e}")))?.map_err(|e| fail(e.to_string()))?;
                let got = Got(got.map_or_else(|e| Ans::Err(format!("~{e}")), |_| Ans::Ok), None);
                let up = Req::Op(Op::Bulk(items.clone()));
                let (m, ok) = in_order(&s.m, &[(r, &g), (&up, &got)]).map_err(fail)?;
                ok.map_err(fail)?;
                s.t.check(&m, &bat).map_err(|e| fail(format!("finally {e}")))?;
            } else {
                up.abort();
                let _ = wait(up);
                drop(raw);
                s.ping(0).map_err(fail)?;
                s.t.check(&m, &bat).map_err(|e| fail(format!("finally {e}")))?;
            }
            if let Some(p) = take_panic() {
                return Err(fail(format!("a panic: {p}")));
            }
            env.count("uploads that stopped", 1);
            Ok(())
        },
        move |i| tx[i as usize].clone(),
    )
}

fn outputs(parts: &[Vec<u8>]) -> Option<Ans> {
    let o = parts.iter().map(|b| parse("Output", b).and_then(|t| m_output(&t).ok())).collect::<Option<Vec<QueryOutputValue>>>()?;
    Some(Ans::Out(o.iter().map(|x| mout(x).sorted()).collect()))
}

/// A result that is read up to some part, while another request comes; then
/// it is read on, or left.
fn downloads(name: String, rocks: bool, size: usize, outs: usize, second: Vec<Req>) -> Box<dyn Part> {
    let mut ops = graph();
    ops.push(Op::Set(q_v(id(7)), "p".into(), j(&format!("\"{}\"", "z".repeat(size)))));
    let mut q = q_v(id(7));
    for _ in 1..outs {
        q = q_incl(q);
    }
    // As many parts of properties: one large part each would be the last one only.
    let q = q_props(q, None);
    let big = (0..=outs + 1).collect::<Vec<_>>();
    let jobs: Vec<(usize, bool, Req)> = big.iter().flat_map(|k| [true, false].map(|end| (*k, end))).flat_map(|(k, end)| second.iter().map(move |r| (k, end, r.clone()))).collect();
    let texts: Vec<String> = jobs.iter().map(|(k, e, r)| format!("a result of {size} bytes read up to part {k}, then {}, then it is {}", r.text(), if *e { "read on" } else { "left" })).collect();
    let bat = battery(&uni(), Depth::Core);
    let nm = name.clone();
    let tx = texts.clone();
    cases(
        &name,
        jobs.len() as u64,
        move |i, env| {
            let (k, end, r) = &jobs[i as usize];
            let fail = |e: String| Fail::new(&format!("{nm} {}", texts[i as usize]), format!("{nm}: {}: {e}", texts[i as usize]));
            let s = Stand::new(rocks, &ops, 1, &[r], env).map_err(fail)?;
            take_panic();
            // Several of them, so that nothing more fits anywhere.
            let mut slow = vec![];
            for _ in 0..3 {
                let raw = Raw::new(s.t.addr()).map_err(fail)?;
                let body = w_query(&q).body();
                let opened = wait(async {
                    let mut st = raw.open("Get", vec![body]).await?;
                    let mut parts = vec![];
                    let mut over = false;
                    while parts.len() < *k && !over {
                        match st.message().await? {
                            Some(p) => parts.push(p),
                            None => over = true,
                        }
                    }
                    Ok::<_, tonic::Status>((st, parts, over))
                });
                let (st, parts, over) = opened.map_err(|e| fail(format!("a result: {e}")))?.map_err(|e| fail(format!("a result: {e}")))?;
                slow.push((raw, st, parts, over));
            }
            let g = ask(&s.cs[0], r);
            let (m, ok) = in_order(&s.m, &[(r, &g)]).map_err(fail)?;
            ok.map_err(|e| fail(format!("meanwhile {e}")))?;
            s.newcomer().map_err(fail)?;
            let get = Req::Op(Op::Get(q.clone()));
            let (mut ma, mut mb) = (s.m.clone(), m.clone());
            let none = Got(Ans::Ok, None);
            let wants = [apply(&mut ma, &get, &none).map_err(fail)?, apply(&mut mb, &get, &none).map_err(fail)?];
            for (raw, mut st, mut parts, over) in slow {
                if *end {
                    let rest = wait(async {
                        while !over {
                            match st.message().await? {
                                Some(p) => parts.push(p),
                                None => break,
                            }
                        }
                        Ok::<_, tonic::Status>(parts)
                    });
                    let parts = rest.map_err(|e| fail(format!("the rest: {e}")))?.map_err(|e| fail(format!("the rest: {e}")))?;
                    let got = outputs(&parts).ok_or_else(|| fail("a part is not a result".into()))?;
                    if !wants.contains(&got) {
                        return Err(fail(format!("the result was {:.300}, expected {:.300}", ans_text(&got), ans_text(&wants[0]))));
                    }
                }
                drop(raw);
            }
            s.ping(0).map_err(fail)?;
            s.t.check(&m, &bat).map_err(|e| fail(format!("finally {e}")))?;
            if let Some(p) = take_panic() {
                return Err(fail(format!("a panic: {p}")));
            }
            env.count("results read slowly", 3);
            Ok(())
        },
        move |i| tx[i as usize].clone(),
    )
}

// ---- connections that are odd ------------------------------------------------

/// What a client sends that makes the request, and the server's answers.
fn recorded(addr: SocketAddr, r: &Req) -> Result<Vec<u8>, String> {
    let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    let a = l.local_addr().map_err(|e| e.to_string())?;
    let t = std::thread::spawn(move || -> std::io::Result<Vec<u8>> {
        let (mut c, _) = l.accept()?;
        let mut s = TcpStream::connect(addr)?;
        let (mut c2, mut s2) = (c.try_clone()?, s.try_clone()?);
        let down = std::thread::spawn(move || std::io::copy(&mut s2, &mut c2));
        let mut said = vec![];
        let mut b = [0; 4096];
        while let Ok(n) = c.read(&mut b) {
            if n == 0 {
                break;
            }
            said.extend(&b[..n]);
            if s.write_all(&b[..n]).is_err() {
                break;
            }
        }
        let _ = s.shutdown(std::net::Shutdown::Both);
        let _ = down.join();
        Ok(said)
    });
    let c = wait(connect(a))??;
    let g = ask(&c, r);
    drop(c);
    let said = t.join().map_err(|_| "recording".to_string())?.map_err(|e| e.to_string())?;
    match g.0 {
        Ans::Err(e) => Err(format!("recording {}: {e}", r.text())),
        _ => Ok(said),
    }
}

#[derive(Clone, Copy, Debug)]
enum Odd {
    /// Sent up to here, and then nothing.
    Stops(usize),
    /// And then closed, or reset.
    Closes(usize, bool),
    /// A byte is another.
    Byte(usize, u8),
    /// Twice on the same connection.
    Again(usize),
}
fn odd_conns(name: String, r: Req, step: usize, bytes: Vec<u8>) -> Box<dyn Part> {
    // Its length is known when it was recorded; further jobs have nothing to do.
    let most = 700;
    let mut jobs: Vec<Odd> = vec![];
    for k in (0..most).step_by(step) {
        jobs.extend([Odd::Stops(k), Odd::Closes(k, false), Odd::Closes(k, true), Odd::Again(k)]);
        jobs.extend(bytes.iter().map(|b| Odd::Byte(k, *b)));
    }
    let nm = name.clone();
    let mut kept: Option<(Vec<TcpStream>, Vec<u8>, Stand)> = None;
    let tx = jobs.clone();
    cases(
        &name,
        jobs.len() as u64,
        move |i, env| {
            let job = jobs[i as usize];
            let fail = |e: String| Fail::new(&format!("{nm} {job:?}"), format!("{nm}: {job:?}: {e}"));
            if kept.is_none() {
                let s = Stand::new(false, &graph(), 1, &[&r], env).map_err(fail)?;
                let said = recorded(s.t.addr(), &r).map_err(fail)?;
                kept = Some((vec![], said, s));
            }
            let (open, said, s) = kept.as_mut().unwrap();
            take_panic();
            let mut b = said.clone();
            match job {
                Odd::Stops(k) | Odd::Closes(k, _) if k < b.len() => b.truncate(k),
                Odd::Byte(k, x) if k < b.len() && b[k] != x => b[k] = x,
                Odd::Again(k) if k < b.len() => b.extend(&said.clone()[k..]),
                _ => return Ok(()),
            }
            let mut c = TcpStream::connect(s.t.addr()).map_err(|e| fail(e.to_string()))?;
            let _ = c.write_all(&b);
            match job {
                Odd::Closes(_, reset) => {
                    if reset {
                        let l = libc::linger { l_onoff: 1, l_linger: 0 };
                        use std::os::fd::AsRawFd;
                        unsafe { libc::setsockopt(c.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, size_of::<libc::linger>() as u32) };
                    }
                    drop(c);
                }
                // It stays open for a while.
                _ => {
                    open.push(c);
                    if open.len() > 100 {
                        open.remove(0);
                    }
                }
            }
            s.ping(0).map_err(fail)?;
            s.newcomer().map_err(fail)?;
            let q = Req::Op(Op::Get(q_props(Query::AllVertex, None)));
            let g = ask(&s.cs[0], &q);
            let (_, ok) = in_order(&s.m, &[(&q, &g)]).map_err(fail)?;
            ok.map_err(fail)?;
            if let Some(p) = take_panic() {
                return Err(fail(format!("a panic: {p}")));
            }
            env.count("odd connections", 1);
            Ok(())
        },
        move |i| format!("{:?}", tx[i as usize]),
    )
}

/// More connections than the server can have open; some of them end.
fn too_many(name: String, limits: Vec<u64>) -> Box<dyn Part> {
    let jobs: Vec<(u64, usize, bool)> = limits.iter().flat_map(|l| [1usize, 2, 20].into_iter().flat_map(move |over| [false, true].map(|used| (*l, over, used)))).collect();
    let tx = jobs.clone();
    let nm = name.clone();
    let text = |(l, over, used): (u64, usize, bool)| format!("{l} files at most, {over} clients too many, their connections {}", if used { "used" } else { "unused" });
    cases(
        &name,
        jobs.len() as u64,
        move |i, env| {
            let job = jobs[i as usize];
            let (limit, over, used) = job;
            let fail = |e: String| Fail::new(&format!("{nm} {}", text(job)), format!("{nm}: {}: {e}", text(job)));
            let mut s = cli::limited(limit).map_err(fail)?;
            let mut m = Model::default();
            for o in graph() {
                s.run(&o);
                apply_model(&mut m, &o, &MemoryDatastore::new_db()).map_err(fail)?;
            }
            let asked = Query::AllVertex;
            let fine = |s: &cli::Server, w: &str| check_query(s, &m, &asked).map_err(|e| format!("{w}: {e}"));
            fine(&s, "at first").map_err(fail)?;
            let free = s.files_left().map_err(fail)?;
            let mut open = vec![];
            for _ in 0..free + over {
                let c = TcpStream::connect(s.addr).map_err(|e| fail(format!("connecting: {e}")))?;
                if used {
                    let _ = (&c).write_all(b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\0\0\0\x04\0\0\0\0\0");
                }
                open.push(c);
            }
            // The server is to notice.
            let t = Instant::now();
            while s.files_left().is_ok_and(|n| n > 0) && t.elapsed() < Duration::from_secs(2) {
                std::thread::sleep(Duration::from_millis(1));
            }
            std::thread::sleep(Duration::from_millis(20));
            s.alive().map_err(|e| fail(format!("with too many clients {e}")))?;
            fine(&s, "with too many clients, one that was there before").map_err(fail)?;
            drop(open);
            let t = Instant::now();
            let newcomer = loop {
                s.alive().map_err(|e| fail(format!("afterwards {e}")))?;
                match wait(connect(s.addr)).and_then(|c| c) {
                    Ok(c) => break Ok(c),
                    Err(e) if t.elapsed() > PATIENCE => break Err(e),
                    Err(_) => std::thread::sleep(Duration::from_millis(5)),
                }
            };
            let c = newcomer.map_err(|e| fail(format!("afterwards another client: {e}")))?;
            let q = Req::Op(Op::Get(q_props(Query::AllVertex, None)));
            let g = ask(&c, &q);
            let (_, ok) = in_order(&m, &[(&q, &g)]).map_err(fail)?;
            ok.map_err(|e| fail(format!("afterwards {e}")))?;
            fine(&s, "afterwards").map_err(fail)?;
            env.count("crowds of connections", 1);
            Ok(())
        },
        move |i| text(tx[i as usize]),
    )
}

pub fn c31(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    let small = requests(false);
    let all = requests(true);
    let begins = |v: &[Req]| v.iter().filter(|r| !matches!(r, Req::Ping)).cloned().collect::<Vec<_>>();
    for rocks in [false, true] {
        let st = if rocks { "Rocks" } else { "Mem" };
        let big = t || !rocks;
        p.push(held(format!("held calls/{st}"), rocks, begins(&all), if big { all.clone() } else { small.clone() }));
        p.push(crowd(format!("crowds/{st}"), rocks, if t { vec![1, 2, 3, 8, 40, 200] } else { vec![1, 3, 24] }, if t { vec![150, 450] } else { vec![150] }));
        let three = if t {
            begins(&small)
        } else if rocks {
            begins(&small)[1..].iter().step_by(3).cloned().collect()
        } else {
            begins(&small)[1..].iter().step_by(2).cloned().collect()
        };
        p.push(orders(format!("two in any order/{st}"), rocks, begins(if big { &all } else { &small }), 2, false));
        p.push(orders(format!("two of one connection in any order/{st}"), rocks, begins(if big { &all } else { &small }), 2, true));
        p.push(orders(format!("three in any order/{st}"), rocks, three.clone(), 3, false));
        if t && !rocks {
            p.push(orders(format!("three of one connection in any order/{st}"), rocks, three, 3, true));
            p.push(orders(format!("four in any order/{st}"), rocks, begins(&small)[1..].iter().step_by(2).cloned().collect(), 4, false));
        }
        p.push(uploads(format!("slow uploads/{st}"), rocks, if big { all.clone() } else { small.clone() }));
        p.push(downloads(format!("slow downloads, small/{st}"), rocks, 10, 5, small.clone()));
        p.push(downloads(format!("slow downloads, large/{st}"), rocks, 7_000_000, 1, if big { small.clone() } else { small[..6].to_vec() }));
    }
    let get = Req::Op(Op::Get(q_props(Query::AllVertex, None)));
    for r in [Req::Ping, get] {
        p.push(odd_conns(format!("odd connections, {}", r.text()), r, 1, if t { vec![0, 1, 0x7f, 0x80, 0xff] } else { vec![0, 0xff] }));
    }
    p.push(too_many("too many connections".into(), if t { (24..=64).collect() } else { vec![32, 48, 64] }));
    p
}
