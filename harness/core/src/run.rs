//! The driver: splits the cases of a check over worker processes, watches
//! them for crashes and hangs, and merges what they report.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    /// Identifies the specific failing input, for the known-findings file.
    pub key: String,
    pub what: String,
    /// The cases the same store had carried out before, where that matters.
    pub session: Vec<u64>,
}
impl Fail {
    pub fn new(key: &str, what: impl Into<String>) -> Fail {
        Fail { key: key.to_string(), what: what.into(), session: vec![] }
    }
}

pub trait Part {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    fn text(&self, i: u64) -> String;
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail>;
    fn close(&mut self) {}
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub thorough: bool,
    pub seed: u64,
}

pub struct Env {
    pub scratch: PathBuf,
    pub counters: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    n: u64,
    pub cfg: Cfg,
}

impl Env {
    pub fn new(scratch: &Path, cfg: Cfg) -> Env {
        std::fs::create_dir_all(scratch).unwrap();
        Env { scratch: scratch.to_path_buf(), counters: Default::default(), states: Default::default(), samples: vec![], n: 0, cfg }
    }
    pub fn fresh_path(&mut self) -> PathBuf {
        self.n += 1;
        self.scratch.join(format!("s{}", self.n))
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static ANY_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map_or(String::new(), |l| format!(" at {}", l.file().rsplit('/').next().unwrap_or("")));
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
        if let Ok(mut a) = ANY_PANIC.try_lock() {
            *a = format!("{msg}{loc}");
        }
    }));
}

/// The last panic on any thread, if there was one since the last call.
pub fn take_panic() -> Option<String> {
    let mut g = ANY_PANIC.lock().unwrap();
    if g.is_empty() {
        None
    } else {
        Some(std::mem::take(&mut *g))
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

type Registry = fn(&str, &Cfg) -> Vec<Box<dyn Part>>;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

const MAX_FAILS: usize = 40;

pub fn main(registry: Registry) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: run|worker|replay CHECK ...");
        std::process::exit(2);
    }
    let cfg = Cfg {
        thorough: arg(&args, "--tier").as_deref() == Some("thorough"),
        seed: arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
    };
    match args[1].as_str() {
        "run" => parent(&args, &cfg, registry),
        "worker" => worker(&args, &cfg, registry),
        "replay" => replay(&args, &cfg, registry),
        _ => std::process::exit(2),
    }
}

fn run_one(p: &mut Box<dyn Part>, i: u64, env: &mut Env) -> Result<(), Fail> {
    match catch(|| p.run(i, env)) {
        Ok(r) => r,
        Err(m) => {
            p.close();
            let t = p.text(i);
            Err(Fail::new(&format!("{} | {}", p.name(), t), format!("[{}] {}: panic: {}", p.name(), t, m)))
        }
    }
}

/// The keys of the failures that are known findings of a check.
fn known(check: &str) -> HashSet<String> {
    let pre = format!("known: property={check} key=");
    std::env::var("MC_VERIF")
        .ok()
        .and_then(|v| std::fs::read_to_string(Path::new(&v).join("known-findings.txt")).ok())
        .map(|t| t.lines().filter_map(|l| l.strip_prefix(&pre)).map(|l| l.split(" :: ").next().unwrap().to_string()).collect())
        .unwrap_or_default()
}

/// How long the exploration goes on once something was found: where cases
/// fail by waiting for what never comes, all of them would take too long.
const GRACE: Duration = Duration::from_secs(40);

fn worker(args: &[String], cfg: &Cfg, registry: Registry) {
    quiet_panics();
    // A worker must not outlive the run.
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let check = &args[2];
    let w: u64 = arg(args, "--w").unwrap().parse().unwrap();
    let n: u64 = arg(args, "--n").unwrap().parse().unwrap();
    let out = arg(args, "--out").unwrap();
    let cur = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(arg(args, "--cur").unwrap()).unwrap();
    let scratch = PathBuf::from(arg(args, "--scratch").unwrap());
    let only = arg(args, "--only").map(|s| {
        let (a, b) = s.split_once(':').unwrap();
        (a.parse::<u64>().unwrap(), b.parse::<u64>().unwrap())
    });
    let budget = arg(args, "--budget").map(|s| Duration::from_secs(s.parse().unwrap()));
    let t0 = Instant::now();
    let mut env = Env::new(&scratch, cfg.clone());
    let mut parts = registry(check, cfg);
    let mut fails = vec![];
    let mut done = vec![];
    let mut cut = false;
    let known = known(check);
    // One for all of the check's workers.
    let found = Path::new(&out).parent().and_then(|d| d.parent()).map(|d| d.join("found"));
    let enough = || {
        let age = found.as_ref().and_then(|f| std::fs::metadata(f).ok()).and_then(|m| m.modified().ok()).and_then(|t| t.elapsed().ok());
        age.is_some_and(|a| a > GRACE)
    };
    let mark = |p: u64, i: u64| {
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&p.to_le_bytes());
        b[8..16].copy_from_slice(&i.to_le_bytes());
        b[16..].copy_from_slice(&1u64.to_le_bytes());
        let _ = cur.write_all_at(&b, 0);
    };
    for (pi, p) in parts.iter_mut().enumerate() {
        let mut ran = 0u64;
        let mut pf = 0;
        let len = p.len();
        let name = p.name();
        let pt0 = Instant::now();
        // Consecutive blocks, so that neighbours share a store.
        let mut i = w;
        while i < len {
            if let Some((op, oi)) = only {
                if op != pi as u64 {
                    break;
                }
                i = oi;
            }
            mark(pi as u64, i);
            if let Err(f) = run_one(p, i, &mut env) {
                let (fi, fp) = (i, pi);
                if !known.contains(&f.key) {
                    if let Some(f) = &found {
                        let _ = std::fs::OpenOptions::new().write(true).create_new(true).open(f);
                    }
                }
                fails.push(json!({"part": fp, "part_name": name, "case": fi, "key": f.key, "what": f.what, "session": f.session}));
                pf += 1;
                if pf >= MAX_FAILS {
                    break;
                }
            } else if env.samples.len() < 400 && (ran < 2 || (ran & (ran - 1)) == 0) {
                let s = format!("[{}] {}", name, p.text(i));
                env.samples.push(s.chars().take(400).collect());
            }
            ran += 1;
            i += n;
            if only.is_some() {
                break;
            }
            if budget.is_some_and(|b| t0.elapsed() > b) || (only.is_none() && enough()) {
                cut = true;
                break;
            }
        }
        p.close();
        done.push(json!({"part": name, "cases": ran, "of": len, "ms": pt0.elapsed().as_millis() as u64}));
        if cut {
            break;
        }
    }
    let st: Vec<u64> = env.states.iter().copied().collect();
    let bytes: Vec<u8> = st.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(format!("{out}.states"), bytes).unwrap();
    let v = json!({"fails": fails, "counters": env.counters, "samples": env.samples, "parts": done, "cut": cut});
    let mut f = std::fs::File::create(&out).unwrap();
    f.write_all(serde_json::to_string(&v).unwrap().as_bytes()).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
}

struct W {
    child: Child,
    out: PathBuf,
    cur: PathBuf,
    scratch: PathBuf,
    last: Vec<u8>,
    since: Instant,
    done: bool,
}

fn spawn(check: &str, tier: &str, seed: &str, dir: &Path, w: u64, n: u64, tag: &str, extra: &[String]) -> W {
    let exe = std::env::current_exe().unwrap();
    let out = dir.join(format!("{tag}{w}.json"));
    let cur = dir.join(format!("{tag}{w}.cur"));
    let scratch = dir.join(format!("{tag}{w}.d"));
    let _ = std::fs::remove_file(&out);
    std::fs::write(&cur, []).unwrap();
    let child = Command::new(exe)
        .arg("worker")
        .arg(check)
        .args(["--tier", tier, "--seed", seed, "--w", &w.to_string(), "--n", &n.to_string()])
        .arg("--out")
        .arg(&out)
        .arg("--cur")
        .arg(&cur)
        .arg("--scratch")
        .arg(&scratch)
        .args(extra)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(dir.join(format!("{tag}{w}.err"))).unwrap())
        .spawn()
        .unwrap();
    W { child, out, cur, scratch, last: vec![], since: Instant::now(), done: false }
}

fn cur_case(w: &W) -> Option<(u64, u64)> {
    let b = std::fs::read(&w.cur).ok()?;
    if b.len() < 24 {
        return None;
    }
    Some((u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..16].try_into().unwrap())))
}

enum End {
    Ok,
    Died(String),
    Hung,
}

fn wait(w: &mut W, hang: Duration) -> End {
    loop {
        if let Some(e) = poll(w, hang) {
            return e;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn poll(w: &mut W, hang: Duration) -> Option<End> {
    match w.child.try_wait().unwrap() {
        Some(st) if st.success() && w.out.exists() => Some(End::Ok),
        Some(st) => Some(End::Died(format!("{st}"))),
        None => {
            let now = std::fs::read(&w.cur).unwrap_or_default();
            if now != w.last {
                w.last = now;
                w.since = Instant::now();
            } else if w.since.elapsed() > hang {
                let _ = w.child.kill();
                let _ = w.child.wait();
                return Some(End::Hung);
            }
            None
        }
    }
}

fn parent(args: &[String], cfg: &Cfg, registry: Registry) {
    let check = args[2].clone();
    let tier = if cfg.thorough { "thorough" } else { "quick" };
    let seed = cfg.seed.to_string();
    let n: u64 = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let hang = Duration::from_secs(arg(args, "--hang").and_then(|s| s.parse().ok()).unwrap_or(60));
    let out = arg(args, "--out").unwrap();
    let dir = PathBuf::from(arg(args, "--dir").unwrap());
    std::fs::create_dir_all(&dir).unwrap();
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let mut extra: Vec<String> = vec![];
    if let Some(b) = arg(args, "--budget") {
        extra.extend(["--budget".to_string(), b]);
    }
    let t0 = Instant::now();
    let mut ws: Vec<W> = (0..n).map(|w| spawn(&check, tier, &seed, &dir, w, n, "w", &extra)).collect();
    let mut fails: Vec<Value> = vec![];
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut parts: BTreeMap<String, (u64, u64, u64)> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut errors: Vec<String> = vec![];
    let mut cut = false;
    while ws.iter().any(|w| !w.done) {
        for k in 0..ws.len() {
            if ws[k].done {
                continue;
            }
            let Some(e) = poll(&mut ws[k], hang) else { continue };
            ws[k].done = true;
            let w = &ws[k];
            match e {
                End::Ok => {
                    let v: Value = serde_json::from_slice(&std::fs::read(&w.out).unwrap()).unwrap();
                    fails.extend(v["fails"].as_array().unwrap().iter().cloned());
                    for (c, x) in v["counters"].as_object().unwrap() {
                        *counters.entry(c.clone()).or_default() += x.as_u64().unwrap();
                    }
                    samples.extend(v["samples"].as_array().unwrap().iter().cloned());
                    for p in v["parts"].as_array().unwrap() {
                        let e = parts.entry(p["part"].as_str().unwrap().to_string()).or_default();
                        e.0 += p["cases"].as_u64().unwrap();
                        e.1 = p["of"].as_u64().unwrap();
                        e.2 = e.2.max(p["ms"].as_u64().unwrap());
                    }
                    cut |= v["cut"].as_bool().unwrap();
                    let st = std::fs::read(format!("{}.states", w.out.display())).unwrap_or_default();
                    for c in st.chunks_exact(8) {
                        states.insert(u64::from_le_bytes(c.try_into().unwrap()));
                    }
                }
                End::Died(_) | End::Hung => {
                    let how = match &e {
                        End::Died(s) => format!("the process died ({s})"),
                        _ => format!("no progress for {} s", hang.as_secs()),
                    };
                    let errtext = std::fs::read_to_string(dir.join(format!("w{k}.err"))).unwrap_or_default();
                    match cur_case(w) {
                        None => errors.push(format!("worker {k}: {how} before its first case: {errtext}")),
                        Some((p, i)) => {
                            // Confirm on its own before blaming the code.
                            let mut c = spawn(&check, tier, &seed, &dir, 0, 1, &format!("c{k}_"), &["--only".into(), format!("{p}:{i}")]);
                            match wait(&mut c, hang) {
                                End::Ok => {
                                    let v: Value = serde_json::from_slice(&std::fs::read(&c.out).unwrap()).unwrap();
                                    let f = v["fails"].as_array().unwrap().clone();
                                    if f.is_empty() {
                                        errors.push(format!("worker {k}: {how} at case {p}:{i}, not reproduced alone: {errtext}"));
                                    }
                                    fails.extend(f);
                                }
                                _ => {
                                    let ps = registry(&check, cfg);
                                    let (name, text) = ps.get(p as usize).map_or(("?".into(), "?".into()), |x| (x.name(), x.text(i)));
                                    fails.push(json!({"part": p, "part_name": name, "case": i, "key": format!("{name} | {text}"),
                                        "what": format!("[{name}] {text}: {how}"), "session": []}));
                                }
                            }
                            let _ = std::fs::remove_dir_all(&c.scratch);
                        }
                    }
                }
            }
            let _ = std::fs::remove_dir_all(&ws[k].scratch);
        }
        std::thread::sleep(Duration::from_millis(4));
    }
    fails.sort_by_key(|f| (f["part"].as_u64(), f["case"].as_u64()));
    let parts: Vec<Value> = parts
        .into_iter()
        .map(|(k, v)| json!({"part": k, "cases": v.0, "of": v.1, "seconds": (v.2 as f64) / 1000.0}))
        .collect();
    let v = json!({"check": check, "fails": fails, "counters": counters, "samples": samples, "parts": parts,
        "distinct_states": states.len(), "errors": errors, "cut": cut, "wall_s": t0.elapsed().as_secs_f64()});
    std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
}

fn replay(args: &[String], cfg: &Cfg, registry: Registry) {
    quiet_panics();
    let check = &args[2];
    let part: usize = arg(args, "--part").unwrap().parse().unwrap();
    let cases: Vec<u64> = arg(args, "--cases").unwrap().split(',').map(|s| s.parse().unwrap()).collect();
    let dir = PathBuf::from(arg(args, "--dir").unwrap());
    let mut env = Env::new(&dir, cfg.clone());
    let mut parts = registry(check, cfg);
    let mut bad = false;
    for (k, i) in cases.iter().enumerate() {
        let p = &mut parts[part];
        if k + 1 == cases.len() {
            println!("case {i} of {}: {}", p.name(), p.text(*i));
        }
        if let Err(f) = run_one(p, *i, &mut env) {
            println!("FAILED: {}", f.what);
            bad = true;
        }
    }
    drop(parts);
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(if bad { 1 } else { 0 });
}
