//! A controlled scheduler: of the threads it runs, only one makes progress at
//! a time; at each scheduling point it decides, following a script, which.

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Run,
    Blocked(usize),
    Done,
}

#[derive(Clone, Debug)]
pub struct Choice {
    /// How many threads could go on; the first is the one that was running,
    /// if it could.
    pub enabled: u16,
    pub chosen: u16,
    pub running_could: bool,
    pub what: &'static str,
}

struct Exec {
    st: Vec<St>,
    cur: usize,
    script: Vec<u16>,
    trace: Vec<Choice>,
    steps: u64,
    fail: Option<String>,
    abort: bool,
    live: usize,
    on: bool,
    names: Vec<String>,
    log: Option<Vec<String>>,
}

static EXEC: Mutex<Exec> = Mutex::new(Exec {
    st: vec![],
    cur: 0,
    script: vec![],
    trace: vec![],
    steps: 0,
    fail: None,
    abort: false,
    live: 0,
    on: false,
    names: vec![],
    log: None,
});
static DONE: Condvar = Condvar::new();
static CLOCK: AtomicU64 = AtomicU64::new(0);
const MAX_THREADS: usize = 64;
/// One per thread: the thread waits for its turn here.
static TURN: [(Mutex<bool>, Condvar); MAX_THREADS] = [const { (Mutex::new(false), Condvar::new()) }; MAX_THREADS];

pub const MAX_STEPS: u64 = 200_000;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// The payload of the panic that ends a thread of an execution given up.
pub struct GivenUp;

fn lock() -> MutexGuard<'static, Exec> {
    EXEC.lock().unwrap_or_else(|e| e.into_inner())
}

/// Is the calling thread under control?
pub fn controlled() -> bool {
    ME.with(|m| m.get()) != usize::MAX
}

/// A logical clock for the order of events.
pub fn now() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}

fn wake(i: usize) {
    let (m, c) = &TURN[i];
    *m.lock().unwrap_or_else(|e| e.into_inner()) = true;
    c.notify_one();
}
fn sleep(i: usize) {
    let (m, c) = &TURN[i];
    let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
    while !*g {
        g = c.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    *g = false;
}

/// Chooses who goes on; `None` if nobody can.
fn choose(e: &mut Exec, what: &'static str) -> Option<usize> {
    let mut en: Vec<usize> = vec![];
    let could = e.st[e.cur] == St::Run;
    if could {
        en.push(e.cur);
    }
    for (i, s) in e.st.iter().enumerate() {
        if *s == St::Run && i != e.cur {
            en.push(i);
        }
    }
    if en.is_empty() {
        return None;
    }
    let mut c = 0;
    if en.len() > 1 {
        let k = e.trace.len();
        c = e.script.get(k).copied().unwrap_or(0);
        if c as usize >= en.len() {
            c = 0;
        }
        e.trace.push(Choice { enabled: en.len() as u16, chosen: c, running_could: could, what });
    }
    let n = en[c as usize];
    if e.log.is_some() && n != e.cur {
        let t = format!("{} {what}; then thread {}", e.cur, n);
        e.log.as_mut().unwrap().push(t);
    }
    e.cur = n;
    Some(n)
}

fn give_up(e: &mut Exec, why: String) {
    if e.fail.is_none() {
        e.fail = Some(why);
    }
    e.abort = true;
    for i in 0..e.st.len() {
        if e.st[i] != St::Done {
            wake(i);
        }
    }
}

fn hand_over(mut e: MutexGuard<'static, Exec>, me: usize, what: &'static str) {
    match choose(&mut e, what) {
        Some(n) if n == me => {}
        Some(n) => {
            drop(e);
            wake(n);
            sleep(me);
            if lock().abort {
                std::panic::resume_unwind(Box::new(GivenUp));
            }
        }
        None => {
            let text = e
                .st
                .iter()
                .enumerate()
                .filter(|(_, s)| **s != St::Done)
                .map(|(i, _)| e.names.get(i).cloned().unwrap_or_default())
                .collect::<Vec<_>>()
                .join(" | ");
            give_up(&mut e, format!("deadlock: every thread waits ({text})"));
            drop(e);
            std::panic::resume_unwind(Box::new(GivenUp));
        }
    }
}

/// Whether only whole operations are interleaved.
pub fn coarse() -> bool {
    static C: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *C.get_or_init(|| std::env::var_os("MC_PLAIN").is_some())
}

/// A scheduling point: the calling thread may be made to wait here.
pub fn point(what: &'static str) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || std::thread::panicking() || (coarse() && what != "operation") {
        return;
    }
    let mut e = lock();
    if e.abort {
        drop(e);
        std::panic::resume_unwind(Box::new(GivenUp));
    }
    e.steps += 1;
    if e.steps > MAX_STEPS {
        give_up(&mut e, "no end in sight (livelock)".into());
        drop(e);
        std::panic::resume_unwind(Box::new(GivenUp));
    }
    hand_over(e, me, what);
}

/// Waits until `wake_all(addr)`.
pub fn block(addr: usize, what: &'static str) {
    let me = ME.with(|m| m.get());
    let mut e = lock();
    if e.abort {
        drop(e);
        if std::thread::panicking() {
            std::thread::yield_now();
            return;
        }
        std::panic::resume_unwind(Box::new(GivenUp));
    }
    e.st[me] = St::Blocked(addr);
    hand_over(e, me, what);
}

/// Lets those that wait for `addr` try again.
pub fn wake_all(addr: usize) {
    if !controlled() {
        return;
    }
    let mut e = lock();
    for s in e.st.iter_mut() {
        if *s == St::Blocked(addr) {
            *s = St::Run;
        }
    }
}
pub fn wake_one(addr: usize) {
    if !controlled() {
        return;
    }
    let mut e = lock();
    if let Some(s) = e.st.iter_mut().find(|s| **s == St::Blocked(addr)) {
        *s = St::Run;
    }
}

/// The calling thread's number.
pub fn me() -> usize {
    ME.with(|m| m.get())
}

type Job = Box<dyn FnOnce() + Send>;
struct Worker {
    tx: std::sync::mpsc::Sender<(usize, Job)>,
}
static POOL: Mutex<Vec<Worker>> = Mutex::new(vec![]);

fn worker() -> Worker {
    let (tx, rx) = std::sync::mpsc::channel::<(usize, Job)>();
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            while let Ok((i, job)) = rx.recv() {
                ME.with(|m| m.set(i));
                sleep(i);
                let given_up = lock().abort;
                let r = if given_up { Ok(()) } else { std::panic::catch_unwind(std::panic::AssertUnwindSafe(job)) };
                ME.with(|m| m.set(usize::MAX));
                let mut e = lock();
                if let Err(p) = r {
                    if !p.is::<GivenUp>() {
                        let text = match (p.downcast_ref::<&str>(), p.downcast_ref::<String>()) {
                            (Some(s), _) => s.to_string(),
                            (_, Some(s)) => s.clone(),
                            _ => "?".into(),
                        };
                        if e.fail.is_none() {
                            e.fail = Some(format!("panic in thread {i}: {text}"));
                        }
                    }
                }
                e.st[i] = St::Done;
                e.live -= 1;
                // Those that wait for this thread to end.
                for s in e.st.iter_mut() {
                    if *s == St::Blocked(ended(i)) {
                        *s = St::Run;
                    }
                }
                if e.live == 0 {
                    DONE.notify_all();
                } else if !e.abort {
                    match choose(&mut e, "end") {
                        Some(n) => {
                            drop(e);
                            wake(n);
                        }
                        None => give_up(&mut e, "deadlock: every thread left waits".into()),
                    }
                }
            }
        })
        .unwrap();
    Worker { tx }
}

fn dispatch(i: usize, job: Job) {
    let mut p = POOL.lock().unwrap_or_else(|e| e.into_inner());
    while p.len() <= i {
        p.push(worker());
    }
    let _ = p[i].tx.send((i, job));
}

/// What a thread that joins thread `i` waits for.
pub fn ended(i: usize) -> usize {
    usize::MAX - i
}

pub fn finished(i: usize) -> bool {
    lock().st[i] == St::Done
}

/// Starts a thread from a thread under control. Returns its number.
pub fn start(job: Job) -> usize {
    let i = {
        let mut e = lock();
        let i = e.st.len();
        assert!(i < MAX_THREADS, "too many threads");
        *TURN[i].0.lock().unwrap_or_else(|e| e.into_inner()) = false;
        e.st.push(St::Run);
        e.names.push("started thread".into());
        e.live += 1;
        i
    };
    dispatch(i, job);
    i
}

pub struct Outcome {
    pub trace: Vec<Choice>,
    pub fail: Option<String>,
    pub steps: u64,
    pub log: Vec<String>,
}

/// Runs the jobs, each as a thread, under the script.
pub fn execute(script: &[u16], names: &[String], jobs: Vec<Job>, log: bool) -> Outcome {
    assert!(!controlled());
    {
        let mut e = lock();
        assert!(!e.on);
        e.on = true;
        e.st = vec![St::Run; jobs.len()];
        e.cur = 0;
        e.script = script.to_vec();
        e.trace = vec![];
        e.steps = 0;
        e.fail = None;
        e.abort = false;
        e.live = jobs.len();
        e.names = names.to_vec();
        e.log = log.then(Vec::new);
        for t in TURN.iter().take(jobs.len()) {
            *t.0.lock().unwrap_or_else(|e| e.into_inner()) = false;
        }
    }
    for (i, j) in jobs.into_iter().enumerate() {
        dispatch(i, j);
    }
    let mut e = lock();
    let first = choose(&mut e, "start").unwrap();
    drop(e);
    wake(first);
    let mut e = lock();
    while e.live > 0 {
        e = DONE.wait(e).unwrap_or_else(|e| e.into_inner());
    }
    e.on = false;
    Outcome { trace: std::mem::take(&mut e.trace), fail: e.fail.take(), steps: e.steps, log: e.log.take().unwrap_or_default() }
}

/// The next script in depth-first order whose preemptions stay within the
/// bound, or `None` when all are done.
pub fn next_script(trace: &[Choice], bound: u32) -> Option<Vec<u16>> {
    let mut pre = vec![0u32; trace.len() + 1];
    for (i, c) in trace.iter().enumerate() {
        pre[i + 1] = pre[i] + (c.running_could && c.chosen > 0) as u32;
    }
    for i in (0..trace.len()).rev() {
        let c = &trace[i];
        if c.chosen + 1 < c.enabled && pre[i] + c.running_could as u32 <= bound {
            let mut s: Vec<u16> = trace[..i].iter().map(|c| c.chosen).collect();
            s.push(c.chosen + 1);
            return Some(s);
        }
    }
    None
}

pub fn preemptions(trace: &[Choice]) -> u32 {
    trace.iter().filter(|c| c.running_could && c.chosen > 0).count() as u32
}

/// Shared between a job and the one that waits for its result.
pub type Slot<T> = Arc<Mutex<Option<T>>>;
