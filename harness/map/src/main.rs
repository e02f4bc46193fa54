//! C25: the vertex-mapping facility, with the pool it uses, under every
//! schedule; and with the order in which calls end under control.
mod list;

use indradb::Vertex;
use indradb_plugin_host::util::{map, VertexMapper};
use indradb_plugin_host::Error;
use list::*;
use mc_core::run::{Cfg, Env, Fail, Part};
use mcstd::sched;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

type Parts = Vec<Box<dyn Part>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Out {
    Fine,
    Err,
    Panic,
}

#[derive(Clone, Debug)]
struct Scene {
    threads: usize,
    outs: Vec<Out>,
    listing: Listing,
}
impl Scene {
    fn text(&self) -> String {
        let odd: Vec<String> = self.outs.iter().enumerate().filter(|(_, o)| **o != Out::Fine).map(|(i, o)| format!("{o:?} at {i}")).collect();
        format!("{} vertices, {} threads, {}, {:?}", self.outs.len(), self.threads, if odd.is_empty() { "all fine".into() } else { odd.join(" ") }, self.listing)
    }
}

/// What happened, as seen by the mapper.
#[derive(Default)]
struct Log {
    begun: BTreeMap<u128, u32>,
    ended: u32,
    now: usize,
    most: usize,
    errors: Vec<String>,
    panics: u32,
    returned: bool,
    late: bool,
}

fn lock(l: &Mutex<Log>) -> std::sync::MutexGuard<'_, Log> {
    l.lock().unwrap_or_else(|e| e.into_inner())
}

struct Mapper {
    scene: Scene,
    log: Arc<Mutex<Log>>,
    gate: Option<Arc<Gate>>,
}
impl VertexMapper for Mapper {
    fn num_threads(&self) -> usize {
        self.scene.threads
    }
    fn map(&self, v: Vertex) -> Result<(), Error> {
        let i = v.id.as_u128();
        {
            let mut l = lock(&self.log);
            *l.begun.entry(i).or_default() += 1;
            l.now += 1;
            l.most = l.most.max(l.now);
            l.late |= l.returned;
        }
        sched::point("a call");
        if let Some(g) = &self.gate {
            g.pass(i);
        }
        let o = self.scene.outs.get(i as usize).copied().unwrap_or(Out::Fine);
        let mut l = lock(&self.log);
        l.now -= 1;
        l.ended += 1;
        l.late |= l.returned;
        match o {
            Out::Fine => Ok(()),
            Out::Err => {
                l.errors.push(format!("v{i}"));
                Err(Error::InvalidArgument(format!("v{i}")))
            }
            Out::Panic => {
                l.panics += 1;
                drop(l);
                std::panic::resume_unwind(Box::new("injected"))
            }
        }
    }
}

/// Judges one run.
fn judge(s: &Scene, r: &Result<(), Error>, l: &Log, listed: &[String]) -> Result<(), String> {
    for (i, n) in &l.begun {
        if *n > 1 {
            return Err(format!("vertex {i} was visited {n} times"));
        }
        if *i as usize >= s.outs.len() {
            return Err(format!("vertex {i} was visited, which there is not"));
        }
    }
    if l.late {
        return Err("a call went on after the return".into());
    }
    if l.now != 0 {
        return Err(format!("it returned while {} calls went on", l.now));
    }
    if l.most > s.threads.max(1) {
        return Err(format!("{} calls at a time", l.most));
    }
    let failed = !l.errors.is_empty() || l.panics > 0 || !listed.is_empty();
    match r {
        Ok(()) if failed => Err(format!("it succeeded, although these failed: {:?} {} {:?}", l.errors, if l.panics > 0 { "(panic)" } else { "" }, listed)),
        Ok(()) if l.begun.len() != s.outs.len() => Err(format!("it succeeded after visiting {} vertices", l.begun.len())),
        Ok(()) => Ok(()),
        Err(e) if !failed => Err(format!("it failed ({e}), although nothing had")),
        Err(e) => {
            let t = e.to_string();
            let ours = l.errors.contains(&t) || listed.iter().any(|x| t.contains(x.as_str())) || l.panics > 0;
            if ours {
                Ok(())
            } else {
                Err(format!("it failed with {t}; what failed was {:?} {listed:?}", l.errors))
            }
        }
    }
}

/// Every schedule of a scene within a number of preemptions.
struct Sched {
    name: String,
    scenes: Vec<Scene>,
    bound: u32,
}
impl Part for Sched {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.scenes.len() as u64
    }
    fn text(&self, i: u64) -> String {
        self.scenes[i as usize].text()
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let s = self.scenes[i as usize].clone();
        let mut script = vec![];
        loop {
            let log = Arc::new(Mutex::new(Log::default()));
            let got: Arc<Mutex<Option<(Result<(), Error>, Result<(), String>)>>> = Arc::new(Mutex::new(None));
            let job: Box<dyn FnOnce() + Send> = {
                let (s, log, got) = (s.clone(), log.clone(), got.clone());
                Box::new(move || {
                    let txn = List::new(s.outs.len(), s.listing, None);
                    let m = Arc::new(Mapper { scene: s.clone(), log: log.clone(), gate: None });
                    let r = map(&txn, m);
                    let j = {
                        let mut l = lock(&log);
                        l.returned = true;
                        judge(&s, &r, &l, &txn.failures())
                    };
                    *got.lock().unwrap() = Some((r, j));
                })
            };
            let out = sched::execute(&script, &["map".to_string()], vec![job], false);
            env.count("schedules", 1);
            env.count("scheduling points", out.steps);
            let trace = || {
                let v: Vec<u16> = out.trace.iter().map(|c| c.chosen).collect();
                format!("{} preemptions, schedule {v:?}", sched::preemptions(&out.trace))
            };
            let r = match (out.fail.clone(), got.lock().unwrap().take()) {
                (Some(f), _) => Err(f),
                (None, Some((_, j))) => j.and_then(|_| if lock(&log).late { Err("a call went on after the return".into()) } else { Ok(()) }),
                (None, None) => Err("it did not return".into()),
            };
            r.map_err(|e| Fail::new(&format!("{} {}", self.name, s.text()), format!("{}: {}: {e} ({})", self.name, s.text(), trace())))?;
            match sched::next_script(&out.trace, self.bound) {
                Some(n) => script = n,
                None => break,
            }
        }
        Ok(())
    }
}

/// Calls wait here until they are let go.
pub struct Gate {
    st: Mutex<GateSt>,
    cv: Condvar,
}
#[derive(Default)]
struct GateSt {
    waiting: Vec<u128>,
    go: Vec<u128>,
    open: bool,
    passed: usize,
    listed: usize,
    over: bool,
}
impl Gate {
    fn new(open: bool) -> Gate {
        Gate { st: Mutex::new(GateSt { open, ..Default::default() }), cv: Condvar::new() }
    }
    fn pass(&self, i: u128) {
        let mut g = self.st.lock().unwrap();
        if !g.open {
            g.waiting.push(i);
            self.cv.notify_all();
            while !g.open && !g.go.contains(&i) {
                g = self.cv.wait(g).unwrap();
            }
        }
        g.passed += 1;
        self.cv.notify_all();
    }
}

/// Every order in which the calls can end, with real threads.
struct Orders {
    name: String,
    scenes: Vec<Scene>,
}
impl Part for Orders {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.scenes.len() as u64
    }
    fn text(&self, i: u64) -> String {
        self.scenes[i as usize].text()
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let s = self.scenes[i as usize].clone();
        // Which of those waiting is let go next.
        let mut script: Vec<usize> = vec![];
        loop {
            let (r, trace) = ordered(&s, &script);
            env.count("orders", 1);
            let order: Vec<usize> = trace.iter().map(|t| t.0).collect();
            r.map_err(|e| Fail::new(&format!("{} {}", self.name, s.text()), format!("{}: {}: {e} (order {order:?})", self.name, s.text())))?;
            let Some(k) = (0..trace.len()).rev().find(|k| trace[*k].0 + 1 < trace[*k].1) else { break };
            script = order[..k].to_vec();
            script.push(order[k] + 1);
        }
        Ok(())
    }
}

fn ordered(s: &Scene, script: &[usize]) -> (Result<(), String>, Vec<(usize, usize)>) {
    let log = Arc::new(Mutex::new(Log::default()));
    let gate = Arc::new(Gate::new(false));
    let h = {
        let (s, log, gate) = (s.clone(), log.clone(), gate.clone());
        std::thread::spawn(move || {
            let txn = List::new(s.outs.len(), s.listing, None);
            let m = Arc::new(Mapper { scene: s.clone(), log: log.clone(), gate: Some(gate.clone()) });
            let r = map(&txn, m);
            let mut l = lock(&log);
            l.returned = true;
            let j = judge(&s, &r, &l, &txn.failures());
            drop(l);
            gate.st.lock().unwrap().over = true;
            gate.cv.notify_all();
            j
        })
    };
    let mut trace: Vec<(usize, usize)> = vec![];
    let mut done = 0;
    let n = s.outs.len();
    let mut g = gate.st.lock().unwrap();
    let start = Instant::now();
    loop {
        // As many as can be, or all that come in a while.
        let full = s.threads.max(1).min(n - done.min(n));
        let t = Instant::now();
        while !g.over && (g.waiting.len() < full || full == 0) && t.elapsed() < Duration::from_millis(if full == 0 { 20_000 } else { 60 }) {
            g = gate.cv.wait_timeout(g, Duration::from_millis(5)).unwrap().0;
        }
        if g.over {
            break;
        }
        if start.elapsed() > Duration::from_secs(20) {
            g.open = true;
            gate.cv.notify_all();
            return (Err("it does not return".into()), trace);
        }
        if g.waiting.is_empty() {
            continue;
        }
        g.waiting.sort();
        let c = script.get(trace.len()).copied().unwrap_or(0).min(g.waiting.len() - 1);
        trace.push((c, g.waiting.len()));
        let v = g.waiting.remove(c);
        g.go.push(v);
        done += 1;
        let want = g.passed + 1;
        gate.cv.notify_all();
        while g.passed < want {
            g = gate.cv.wait(g).unwrap();
        }
    }
    drop(g);
    let r = h.join().unwrap_or_else(|_| Err("it panicked".into()));
    let r = r.and_then(|_| if lock(&log).late { Err("a call went on after the return".into()) } else { Ok(()) });
    (r, trace)
}

/// Many vertices: how the listing and the calls keep pace.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pace {
    Free,
    /// The listing goes on only once all calls so far have ended.
    Behind,
    /// The calls go on only once the listing is over.
    Ahead,
}

struct Many {
    name: String,
    scenes: Vec<(Scene, Pace)>,
}
impl Part for Many {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.scenes.len() as u64
    }
    fn text(&self, i: u64) -> String {
        let (s, p) = &self.scenes[i as usize];
        format!("{}, {p:?}", s.text())
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let (s, pace) = self.scenes[i as usize].clone();
        let log = Arc::new(Mutex::new(Log::default()));
        let gate = Arc::new(Gate::new(pace != Pace::Ahead));
        let (tx, rx) = std::sync::mpsc::channel();
        {
            let (s, log, gate) = (s.clone(), log.clone(), gate.clone());
            std::thread::spawn(move || {
                let txn = List::new(s.outs.len(), s.listing, Some((gate.clone(), pace)));
                let m = Arc::new(Mapper { scene: s.clone(), log: log.clone(), gate: Some(gate) });
                let r = map(&txn, m);
                let mut l = lock(&log);
                l.returned = true;
                let _ = tx.send(judge(&s, &r, &l, &txn.failures()));
            });
        }
        let r = rx.recv_timeout(Duration::from_secs(20)).unwrap_or_else(|_| Err("it does not return".into()));
        let late = lock(&log).late;
        env.count("runs with many vertices", 1);
        let r = r.and_then(|_| if late { Err("a call went on after the return".into()) } else { Ok(()) });
        r.map_err(|e| Fail::new(&format!("{} {}", self.name, self.text(i)), format!("{}: {}: {e}", self.name, self.text(i))))
    }
}

/// All ways for each of `n` calls to end.
fn outs(n: usize) -> Vec<Vec<Out>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|x: Vec<Out>| [Out::Fine, Out::Err, Out::Panic].map(|o| [x.clone(), vec![o]].concat())).collect();
    }
    v
}

fn listings(n: usize) -> Vec<Listing> {
    let mut v = vec![Listing::Fine, Listing::Refused];
    v.extend((0..=n).map(Listing::Item));
    v.extend((0..n).map(Listing::End));
    v
}

fn registry(check: &str, cfg: &Cfg) -> Parts {
    if check != "C25" {
        eprintln!("unknown check {check}");
        std::process::exit(2);
    }
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    let scenes = |n: usize, threads: &[usize]| {
        let mut v = vec![];
        for th in threads {
            for o in outs(n) {
                for l in listings(n) {
                    v.push(Scene { threads: *th, outs: o.clone(), listing: l });
                }
            }
        }
        v
    };
    if !sched::coarse() {
        for n in 0..=3 {
            for threads in 0..=3 {
                let bound = match (n, threads) {
                    (0..=1, 0..=1) => 2,
                    (_, 0..=1) => 1,
                    (0..=1, 2) => 1,
                    (2, 2) => 1,
                    (3, 3) => -1,
                    _ => 0,
                } + 1 + t as i32;
                p.push(Box::new(Sched { name: format!("schedules, {n} vertices, {threads} threads"), scenes: scenes(n, &[threads]), bound: bound as u32 }));
            }
        }
    }
    for n in 0..=(if t { 5 } else { 4 }) {
        let v = scenes(n, if n < 4 { &[0, 1, 2, 3, 4, 9] } else { &[1, 2, 4] });
        // With a listing that fails only for few calls.
        let v = v.into_iter().filter(|s| n < 3 || s.listing == Listing::Fine).collect();
        p.push(Box::new(Orders { name: format!("orders, {n} vertices"), scenes: v }));
    }
    let mut many = vec![];
    let sizes: &[usize] = if t { &[998, 999, 1000, 1001, 1002, 1999, 2000, 2001, 2999, 3000, 3001, 10_001] } else { &[998, 999, 1000, 1001, 1999, 2000, 2001] };
    for n in sizes {
        let mut odd: Vec<Vec<usize>> = vec![vec![]];
        odd.extend([0, 1, 997, 998, 999, 1000, 1001, 1998, 1999, 2000, n - 2, n - 1].iter().filter(|k| **k < *n).map(|k| vec![*k]));
        odd.push((0..*n).collect());
        odd.push(vec![n / 2, n - 1]);
        for o in odd {
            for kind in [Out::Err, Out::Panic] {
                if kind == Out::Panic && (o.is_empty() || o.len() > 3) {
                    continue;
                }
                for threads in [1, 3, 8] {
                    for pace in [Pace::Free, Pace::Behind, Pace::Ahead] {
                        let mut outs = vec![Out::Fine; *n];
                        for k in &o {
                            outs[*k] = kind;
                        }
                        many.push((Scene { threads, outs, listing: Listing::Fine }, pace));
                    }
                }
            }
        }
        for l in [Listing::Item(0), Listing::Item(998), Listing::Item(999), Listing::Item(1000), Listing::Item(*n), Listing::End(999), Listing::End(n - 1)] {
            for pace in [Pace::Behind, Pace::Ahead] {
                many.push((Scene { threads: 2, outs: vec![Out::Fine; *n], listing: l }, pace));
            }
        }
    }
    p.push(Box::new(Many { name: "many vertices".into(), scenes: many }));
    p
}

fn main() {
    mc_core::run::main(registry);
}
