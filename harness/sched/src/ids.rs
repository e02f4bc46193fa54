//! C27: generated ids, with the clock's readings under control, and with the
//! generating threads under every schedule.
use indradb::util::generate_uuid_v1;
use indradb::{Database, Error, Identifier, MemoryDatastore, CountQueryExt, Query, QueryOutputValue, RocksdbDatastore, SpecificVertexQuery, Vertex};
use mc_core::run::{Cfg, Env, Fail, Part};
use mcstd::sched;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use uuid::Uuid;

type Parts = Vec<Box<dyn Part>>;

/// How many ids may be asked for before the same reading can give the same id
/// again: the sequence has 14 bits.
const RANGE: usize = 1 << 14;

struct Clock {
    on: bool,
    base: i128,
    deltas: Vec<i64>,
    /// Begins again at the first delta after the last, instead of ticking.
    cycle: bool,
    read: usize,
    at: i128,
}
static CLOCK: Mutex<Clock> = Mutex::new(Clock { on: false, base: 0, deltas: vec![], cycle: false, read: 0, at: 0 });

thread_local! {
    static SCRIPTED: Cell<bool> = const { Cell::new(false) };
    static READS: Cell<u32> = const { Cell::new(0) };
}

/// What `SystemTime::now` calls. For threads that ask for it, the readings are
/// those of the script.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clock == libc::CLOCK_REALTIME && SCRIPTED.with(|s| s.get()) {
        SCRIPTED.with(|s| s.set(false));
        sched::point("clock");
        let t = {
            let mut c = CLOCK.lock().unwrap_or_else(|e| e.into_inner());
            let n = c.read;
            c.read += 1;
            if n > 0 {
                let d = match c.deltas.len() {
                    0 => 0,
                    l if c.cycle => c.deltas[(n - 1) % l],
                    _ => c.deltas.get(n - 1).copied().unwrap_or(100),
                };
                c.at += d as i128;
            }
            // Who waits for the clock to move on shall not wait for ever.
            if READS.with(|r| r.replace(r.get() + 1)) > 100 {
                c.at += 1000;
            }
            c.at
        };
        (*ts).tv_sec = t.div_euclid(1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = t.rem_euclid(1_000_000_000) as libc::c_long;
        sched::point("clock read");
        SCRIPTED.with(|s| s.set(true));
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clock as libc::c_long, ts) as libc::c_int
}

fn script(base: i128, deltas: &[i64], cycle: bool) {
    let mut c = CLOCK.lock().unwrap_or_else(|e| e.into_inner());
    *c = Clock { on: true, base, deltas: deltas.to_vec(), cycle, read: 0, at: base };
    let _ = (c.on, c.base);
}

/// Runs a call under the scripted clock.
fn under<T>(f: impl FnOnce() -> T) -> T {
    SCRIPTED.with(|s| s.set(true));
    READS.with(|r| r.set(0));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            SCRIPTED.with(|s| s.set(false));
        }
    }
    let _off = Off;
    f()
}

/// Moments the readings are around, each used by one run only: an ordinary
/// one, ends of a second, and carries between the parts of the id's time.
fn moment(kind: usize) -> i128 {
    const GREGORIAN: i128 = 0x01B2_1DD2_1381_4000;
    static RUNS: Mutex<i128> = Mutex::new(0);
    let n = {
        let mut r = RUNS.lock().unwrap();
        *r += 1;
        *r
    };
    let near = 1_700_000_000 * 1_000_000_000i128;
    match kind {
        0 => near + n * 100_000_000_000 + 123_456_700,
        1 => near + n * 100_000_000_000,
        2 => ((((near / 100 + GREGORIAN) >> 32) + n) << 32).wrapping_sub(GREGORIAN) * 100,
        _ => ((((near / 100 + GREGORIAN) >> 48) + 1 + n % 400) << 48).wrapping_sub(GREGORIAN) * 100,
    }
}
const MOMENTS: [&str; 4] = ["an ordinary moment", "the end of a second", "a carry out of the low part", "a carry out of the middle part"];

const MENU: [i64; 6] = [0, 100, -100, 50, 1_000_000_000, -1_000_000_000];

fn deltas_of(menu: &[i64], len: usize, mut i: u64) -> Vec<i64> {
    (0..len)
        .map(|_| {
            let d = menu[(i % menu.len() as u64) as usize];
            i /= menu.len() as u64;
            d
        })
        .collect()
}

fn name(i: usize) -> Identifier {
    Identifier::new(format!("t{i}")).unwrap()
}

enum Store {
    Mem(Database<MemoryDatastore>),
    Rocks(Database<RocksdbDatastore>),
}
impl Store {
    fn create(&self, t: Identifier) -> Result<Uuid, Error> {
        match self {
            Store::Mem(d) => d.create_vertex_from_type(t),
            Store::Rocks(d) => d.create_vertex_from_type(t),
        }
    }
    fn plain(&self, v: &Vertex) -> Result<bool, Error> {
        match self {
            Store::Mem(d) => d.create_vertex(v),
            Store::Rocks(d) => d.create_vertex(v),
        }
    }
    fn get(&self, q: Query) -> Result<Vec<QueryOutputValue>, Error> {
        match self {
            Store::Mem(d) => d.get(q),
            Store::Rocks(d) => d.get(q),
        }
    }
    fn exists(&self, id: Uuid, t: Identifier) -> Result<(), String> {
        match self.get(SpecificVertexQuery::single(id).into()).map_err(|e| e.to_string())?.as_slice() {
            [QueryOutputValue::Vertices(v)] if v.len() == 1 && v[0].id == id && v[0].t == t => Ok(()),
            o => Err(format!("the vertex made as {id} of type {} reads as {o:?}", t.as_str())),
        }
    }
    fn holds(&self, n: u64) -> Result<(), String> {
        match self.get(indradb::AllVertexQuery.count().map_err(|e| e.to_string())?.into()).map_err(|e| e.to_string())?.as_slice() {
            [QueryOutputValue::Count(k)] if *k == n => Ok(()),
            o => Err(format!("{n} vertices were made, there are {o:?}")),
        }
    }
    fn clear(&self) -> Result<(), String> {
        match self {
            Store::Mem(d) => d.delete(indradb::AllVertexQuery),
            Store::Rocks(d) => d.delete(indradb::AllVertexQuery),
        }
        .map_err(|e| e.to_string())
    }
}

fn fail(part: &str, text: &str, e: String) -> Fail {
    Fail::new(&format!("{part} {text}"), format!("{part}: {text}: {e}"))
}

fn distinct(ids: &[Uuid]) -> Result<(), String> {
    let mut seen: HashMap<Uuid, usize> = HashMap::new();
    for (i, id) in ids.iter().enumerate() {
        if let Some(j) = seen.insert(*id, i) {
            return Err(format!("call {i} gave {id}, as call {j} had"));
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Way {
    Generate,
    New,
    Memory,
    Rocks,
}

/// Short sequences: every one over the menu.
struct Short {
    way: Way,
    len: usize,
    db: Option<Store>,
}
impl Short {
    fn per(&self) -> u64 {
        (MENU.len() as u64).pow(self.len as u32 - 1)
    }
}
impl Part for Short {
    fn name(&self) -> String {
        format!("{:?}: every sequence of {} readings", self.way, self.len)
    }
    fn len(&self) -> u64 {
        self.per() * MOMENTS.len() as u64
    }
    fn text(&self, i: u64) -> String {
        format!("at {}, the clock moving by {:?} ns", MOMENTS[(i / self.per()) as usize], deltas_of(&MENU, self.len - 1, i % self.per()))
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let deltas = deltas_of(&MENU, self.len - 1, i % self.per());
        if self.db.is_none() {
            self.db = match self.way {
                Way::Memory => Some(Store::Mem(MemoryDatastore::new_db())),
                Way::Rocks => Some(Store::Rocks(RocksdbDatastore::new_db(env.fresh_path()).unwrap())),
                _ => None,
            };
        }
        script(moment((i / self.per()) as usize), &deltas, false);
        let r = (|| {
            let mut ids = vec![];
            for k in 0..self.len {
                let id = match (&self.db, self.way) {
                    (Some(d), _) => under(|| d.create(name(k))).map_err(|e| format!("call {k} failed: {e}"))?,
                    (_, Way::New) => {
                        let v = under(|| Vertex::new(name(k)));
                        if v.t != name(k) {
                            return Err(format!("Vertex::new({}) is of type {}", name(k).as_str(), v.t.as_str()));
                        }
                        v.id
                    }
                    _ => under(generate_uuid_v1),
                };
                ids.push(id);
            }
            distinct(&ids)?;
            if let Some(d) = &self.db {
                for (k, id) in ids.iter().enumerate() {
                    d.exists(*id, name(k))?;
                }
                d.holds(ids.len() as u64)?;
                d.clear()?;
            }
            Ok(())
        })();
        env.count("ids", self.len as u64);
        r.map_err(|e| {
            self.db = None;
            fail(&self.name(), &self.text(i), e)
        })
    }
}

/// Who asks: sequences over threads of their own, one after another.
struct Turns {
    len: usize,
    who: usize,
}
impl Part for Turns {
    fn name(&self) -> String {
        format!("{} calls by {} fresh threads in turn", self.len, self.who)
    }
    fn len(&self) -> u64 {
        (self.who as u64).pow(self.len as u32) * 3
    }
    fn text(&self, i: u64) -> String {
        let k = (self.who as u64).pow(self.len as u32);
        let w: Vec<i64> = (0..self.who as i64).collect();
        format!("threads {:?}, the clock {}", deltas_of(&w, self.len, i % k), ["standing still", "going back and forth", "ticking"][(i / k) as usize])
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let k = (self.who as u64).pow(self.len as u32);
        let w: Vec<i64> = (0..self.who as i64).collect();
        let turns = deltas_of(&w, self.len, i % k);
        script(moment(0), &[vec![0], vec![100, -100], vec![100]][(i / k) as usize], true);
        let (to, mut workers): (std::sync::mpsc::Sender<Uuid>, Vec<std::sync::mpsc::Sender<()>>) = (std::sync::mpsc::channel().0, vec![]);
        drop(to);
        let (back, ids_in) = std::sync::mpsc::channel();
        let mut hs = vec![];
        for _ in 0..self.who {
            let (s, r) = std::sync::mpsc::channel::<()>();
            let back = back.clone();
            workers.push(s);
            hs.push(std::thread::spawn(move || {
                while r.recv().is_ok() {
                    let _ = back.send(under(generate_uuid_v1));
                }
            }));
        }
        let mut ids = vec![];
        for t in &turns {
            workers[*t as usize].send(()).unwrap();
            ids.push(ids_in.recv_timeout(std::time::Duration::from_secs(20)).map_err(|e| fail(&self.name(), &self.text(i), e.to_string()))?);
        }
        drop(workers);
        for h in hs {
            let _ = h.join();
        }
        env.count("ids", ids.len() as u64);
        distinct(&ids).map_err(|e| fail(&self.name(), &self.text(i), e))
    }
}

/// Long runs, beyond the sequence's whole range.
struct Long {
    way: Way,
    calls: usize,
    patterns: Vec<Vec<i64>>,
}
impl Part for Long {
    fn name(&self) -> String {
        format!("{:?}: {} calls", self.way, self.calls)
    }
    fn len(&self) -> u64 {
        self.patterns.len() as u64
    }
    fn text(&self, i: u64) -> String {
        format!("the clock moving by {:?} ns, over and over", self.patterns[i as usize])
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        script(moment(0), &self.patterns[i as usize], true);
        let db = match self.way {
            Way::Memory => Some(Store::Mem(MemoryDatastore::new_db())),
            Way::Rocks => Some(Store::Rocks(RocksdbDatastore::new_db(env.fresh_path()).unwrap())),
            _ => None,
        };
        let r = (|| {
            // The number of the call that gave an id, and of all ids given.
            let mut seen: HashMap<Uuid, usize> = HashMap::new();
            let mut refused = 0u64;
            for k in 0..self.calls {
                let id = match &db {
                    None => under(generate_uuid_v1),
                    Some(d) => match under(|| d.create(name(k))) {
                        Ok(id) => id,
                        Err(Error::UuidTaken) if k >= RANGE => {
                            refused += 1;
                            continue;
                        }
                        Err(e) => return Err(format!("call {k} failed: {e}")),
                    },
                };
                if let Some(j) = seen.insert(id, k) {
                    if db.is_some() || k - j < RANGE {
                        return Err(format!("call {k} gave {id}, as call {j} had"));
                    }
                }
            }
            if let Some(d) = &db {
                for (id, k) in &seen {
                    d.exists(*id, name(*k))?;
                }
                d.holds(seen.len() as u64)?;
            }
            env.count("refused as taken", refused);
            Ok(())
        })();
        env.count("ids", self.calls as u64);
        r.map_err(|e| fail(&self.name(), &self.text(i), e))
    }
}

/// Ids that were given by hand before.
struct Taken {
    rocks: bool,
}
impl Part for Taken {
    fn name(&self) -> String {
        format!("ids taken beforehand ({})", if self.rocks { "RocksDB" } else { "memory" })
    }
    fn len(&self) -> u64 {
        8
    }
    fn text(&self, i: u64) -> String {
        format!("of the next 8 ids, {} were taken", [1, 2, 4, 8, 0x0f, 0xf0, 0x55, 0xff][i as usize])
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let mask = [1u8, 2, 4, 8, 0x0f, 0xf0, 0x55, 0xff][i as usize];
        script(moment(0), &[0], true);
        let d = if self.rocks { Store::Rocks(RocksdbDatastore::new_db(env.fresh_path()).unwrap()) } else { Store::Mem(MemoryDatastore::new_db()) };
        let r = (|| {
            let last = under(generate_uuid_v1);
            let mut hand = vec![];
            for k in 0..8u16 {
                if mask & (1 << k) != 0 {
                    // The sequence is in bytes 8 and 9, below the variant.
                    let mut b = *last.as_bytes();
                    let seq = (u16::from_be_bytes([b[8] & 0x3f, b[9]]) + k + 1) & 0x3fff;
                    b[8] = (b[8] & 0xc0) | (seq >> 8) as u8;
                    b[9] = seq as u8;
                    let v = Vertex::with_id(Uuid::from_bytes(b), name(100 + k as usize));
                    if !d.plain(&v).map_err(|e| e.to_string())? {
                        return Err(format!("{} could not be made", v.id));
                    }
                    hand.push(v);
                }
            }
            let mut made: Vec<(Uuid, usize)> = vec![];
            let mut refused = 0;
            for k in 0..10 {
                match under(|| d.create(name(k))) {
                    Ok(id) => made.push((id, k)),
                    Err(Error::UuidTaken) => refused += 1,
                    Err(e) => return Err(format!("call {k} failed: {e}")),
                }
            }
            let all: Vec<Uuid> = made.iter().map(|m| m.0).chain(hand.iter().map(|v| v.id)).collect();
            distinct(&all)?;
            if refused > hand.len() {
                return Err(format!("{refused} calls were refused, {} ids were taken", hand.len()));
            }
            for v in &hand {
                d.exists(v.id, v.t)?;
            }
            for (id, k) in &made {
                d.exists(*id, name(*k))?;
            }
            env.count("refused as taken", refused as u64);
            d.holds(all.len() as u64)
        })();
        r.map_err(|e| fail(&self.name(), &self.text(i), e))
    }
}

/// Every schedule of threads that generate.
struct Race {
    way: Way,
    shape: Vec<usize>,
    menu: Vec<i64>,
    bound: u32,
    rocks: Option<Arc<Store>>,
}
impl Race {
    fn calls(&self) -> usize {
        self.shape.iter().sum()
    }
}
impl Part for Race {
    fn name(&self) -> String {
        let b = if self.bound == u32::MAX { "every schedule".into() } else { format!("at most {} preemptions", self.bound) };
        format!("{:?}: threads making {:?}, {b}", self.way, self.shape)
    }
    fn len(&self) -> u64 {
        (self.menu.len() as u64).pow(self.calls() as u32 - 1)
    }
    fn text(&self, i: u64) -> String {
        format!("the clock moving by {:?} ns", deltas_of(&self.menu, self.calls() - 1, i))
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let deltas = deltas_of(&self.menu, self.calls() - 1, i);
        let _ = generate_uuid_v1();
        let mut order: Vec<u16> = vec![];
        loop {
            script(moment(0), &deltas, false);
            let db = match self.way {
                Way::Memory => Some(Arc::new(Store::Mem(MemoryDatastore::new_db()))),
                Way::Rocks => {
                    if self.rocks.is_none() {
                        self.rocks = Some(Arc::new(Store::Rocks(RocksdbDatastore::new_db(env.fresh_path()).unwrap())));
                    }
                    self.rocks.clone()
                }
                _ => None,
            };
            let got: Arc<Mutex<Vec<(Result<Uuid, String>, usize)>>> = Default::default();
            let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
            let mut names = vec![];
            let mut n = 0;
            for (t, calls) in self.shape.iter().enumerate() {
                let (from, to) = (n, n + calls);
                n = to;
                let (db, got) = (db.clone(), got.clone());
                names.push(format!("t{t}"));
                jobs.push(Box::new(move || {
                    for k in from..to {
                        sched::point("operation");
                        let r = under(|| match &db {
                            None => Ok(generate_uuid_v1()),
                            Some(d) => d.create(name(k)).map_err(|e| e.to_string()),
                        });
                        got.lock().unwrap().push((r, k));
                    }
                }));
            }
            let out = sched::execute(&order, &names, jobs, false);
            env.count("schedules", 1);
            env.count("scheduling points", out.steps);
            let r = (|| {
                if let Some(f) = &out.fail {
                    return Err(f.clone());
                }
                let got = got.lock().unwrap();
                let mut ids = vec![];
                for (r, k) in got.iter() {
                    ids.push((*r.as_ref().map_err(|e| format!("call {k} failed: {e}"))?, *k));
                }
                if ids.len() != self.calls() {
                    return Err(format!("{} calls ended", ids.len()));
                }
                distinct(&ids.iter().map(|x| x.0).collect::<Vec<_>>())?;
                if let Some(d) = &db {
                    for (id, k) in &ids {
                        d.exists(*id, name(*k))?;
                    }
                    d.holds(ids.len() as u64)?;
                    if self.rocks.is_some() {
                        d.clear()?;
                    }
                }
                Ok(())
            })();
            if let Err(e) = r {
                self.rocks = None;
                let v: Vec<u16> = out.trace.iter().map(|c| c.chosen).collect();
                return Err(fail(&self.name(), &self.text(i), format!("{e} ({} preemptions, schedule {v:?})", sched::preemptions(&out.trace))));
            }
            match sched::next_script(&out.trace, self.bound) {
                Some(n) => order = n,
                None => break,
            }
        }
        Ok(())
    }
}

pub fn c27(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut v: Parts = vec![];
    for (way, len) in [(Way::Generate, if t { 8 } else { 6 }), (Way::New, 5), (Way::Memory, if t { 6 } else { 5 }), (Way::Rocks, if t { 5 } else { 4 })] {
        v.push(Box::new(Short { way, len, db: None }));
    }
    v.push(Box::new(Turns { len: if t { 9 } else { 6 }, who: 2 }));
    v.push(Box::new(Turns { len: if t { 6 } else { 4 }, who: 3 }));
    let mut patterns: Vec<Vec<i64>> = vec![];
    let menu = [0i64, 100, -100, 37, -1_000_000];
    for p in 1..=(if t { 4 } else { 3 }) {
        for i in 0..(menu.len() as u64).pow(p) {
            let d = deltas_of(&menu, p as usize, i);
            if d.iter().sum::<i64>() * (5 * RANGE as i64) / p as i64 > -1_000_000_000_000_000 {
                patterns.push(d);
            }
        }
    }
    let few: Vec<Vec<i64>> = vec![vec![0], vec![100, -100], vec![0, 0, 100, -100], vec![100], vec![-100], vec![1000, -1100]];
    v.push(Box::new(Long { way: Way::Generate, calls: 5 * RANGE, patterns }));
    v.push(Box::new(Long { way: Way::Memory, calls: 2 * RANGE + 10, patterns: few.clone() }));
    v.push(Box::new(Long { way: Way::Rocks, calls: RANGE + 10, patterns: few[..if t { 6 } else { 2 }].to_vec() }));
    v.push(Box::new(Taken { rocks: false }));
    v.push(Box::new(Taken { rocks: true }));
    const ALL: u32 = u32::MAX;
    let mut race = |way, shape: &[usize], menu: &[i64], bound| v.push(Box::new(Race { way, shape: shape.to_vec(), menu: menu.to_vec(), bound, rocks: None }));
    race(Way::Generate, &[2, 2], &MENU[..5], ALL);
    race(Way::Generate, &[3, 2], &MENU[..3], ALL);
    race(Way::Generate, &[1, 1, 1], &MENU[..3], ALL);
    race(Way::Memory, &[2, 2], &MENU[..3], if t { 4 } else { 3 });
    race(Way::Rocks, &[1, 1], &MENU[..3], 3);
    if t {
        race(Way::Generate, &[3, 3], &MENU[..3], ALL);
        race(Way::Generate, &[2, 2, 1], &MENU[..2], ALL);
        race(Way::Memory, &[1, 1, 1], &MENU[..3], 4);
        race(Way::Rocks, &[2, 2], &MENU[..2], 3);
    }
    v
}
