//! C15: the sync of a memory image, in a traced process of its own: killed
//! before every system call, with every file operation failing or cut short,
//! and with what a loss of power would leave judged at every one of them.
use crate::seq::*;
use indradb::MemoryDatastore;
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{Cfg, Env, Fail, Part};
use mc_core::universe::*;
use std::collections::{HashMap, HashSet};
use std::os::unix::fs::MetadataExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

type Parts = Vec<Box<dyn Part>>;

#[derive(Clone)]
struct Scenario {
    name: String,
    path: &'static str,
    /// What the previous image holds, if there is one.
    before: Option<Vec<Op>>,
    /// The store is loaded from the previous image rather than that which wrote it.
    loaded: bool,
    then: Vec<Op>,
}

fn bulky(n: usize, tag: &str) -> Op {
    Op::Set(q_v(id(1)), "p".into(), indradb::Json::new(serde_json::Value::from(tag.repeat(n))))
}

fn scenarios(t: bool) -> Vec<Scenario> {
    let base = || vec![cv(1, "x"), cv(2, "x"), ce(1, "t", 2), index("p"), sv(1, "p", "1"), se_((1, "t", 2), "p", "[2]")];
    let more = || vec![cv(3, "y"), ce(2, "t", 3), sv(2, "p", "1"), dvp(1, Some("p"))];
    let with = |mut v: Vec<Op>, o: Op| {
        v.push(o);
        v
    };
    let sc = |name: &str, path: &'static str, before: Option<Vec<Op>>, loaded: bool, then: Vec<Op>| Scenario { name: name.into(), path, before, loaded, then };
    let mut v = vec![
        sc("first image of an empty store", "image", None, false, vec![]),
        sc("first image", "image", None, false, base()),
        sc("small over small", "image", Some(base()), false, more()),
        sc("the same again", "image", Some(base()), false, vec![]),
        sc("small over small, loaded", "image", Some(base()), true, more()),
        sc("small over large", "image", Some(with(base(), bulky(20_000, "o"))), false, with(more(), sv(1, "p", "1"))),
        sc("large over small", "image", Some(base()), false, with(more(), bulky(20_000, "n"))),
        sc("large over large, loaded", "image", Some(with(base(), bulky(20_000, "o"))), true, with(more(), bulky(20_001, "n"))),
        sc("nothing over something", "image", Some(base()), false, vec![Op::Delete(indradb::Query::AllVertex)]),
        sc("in a directory", "d/image", Some(base()), false, more()),
        sc("dotted path", "./d/../image", Some(base()), true, more()),
    ];
    // Many small items: the buffer fills part by part.
    for n in if t { vec![50u128, 100, 150, 200, 300, 450, 600, 2000] } else { vec![300] } {
        let many: Vec<_> = (0..n).flat_map(|k| vec![bv(10 + k, "x"), be(10 + k, "t", 10), bvp(10 + k, "q", "[1,2,3]")]).collect();
        v.push(sc(&format!("{n} elements"), "image", Some(base()), false, with(more(), Op::Bulk(many))));
    }
    let sizes: &[usize] = if t { &[8_000, 8_100, 8_120, 8_140, 8_150, 8_160, 8_170, 8_180, 8_190, 8_191, 8_192, 8_193, 16_384, 32_768, 65_536, 1 << 20, 3 << 20] } else { &[8_150, 8_192, 65_536] };
    {
        for n in sizes.iter().copied() {
            v.push(sc(&format!("value of {n} bytes over another"), "image", Some(with(base(), bulky(n, "o"))), false, with(more(), bulky(n, "n"))));
        }
    }
    v
}

fn later() -> Vec<Op> {
    vec![cv(4, "y"), ce(4, "t", 1), sv(4, "p", "\"late\""), dv(2)]
}

fn uni() -> Universe {
    Universe::new(&[1, 2, 3, 4, 10], &["x", "y"], &["t"], &["p", "q"], &["1", "[2]", "\"late\""])
}

/// What the reference model says the images before, of and after the sync hold.
fn models(sc: &Scenario) -> (Option<Model>, Model, Model) {
    let db = MemoryDatastore::new_db();
    let mut m = Model::default();
    let go = |m: &mut Model, ops: &[Op]| {
        for op in ops {
            let got = apply(&db, op);
            let want = apply_model(m, op, &db).unwrap();
            assert!(got == want, "{} answered {}", optext(op), ans_text(&got));
        }
    };
    let old = sc.before.as_ref().map(|b| {
        go(&mut m, b);
        m.clone()
    });
    go(&mut m, &sc.then);
    let new = m.clone();
    go(&mut m, &later());
    (old, new, m)
}

// ---- The traced process -----------------------------------------------------

static SAME: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// In the traced process, hash tables are always in the same order, so that
/// every run makes the same system calls.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, n: usize, flags: libc::c_uint) -> isize {
    if !SAME.load(std::sync::atomic::Ordering::SeqCst) {
        return libc::syscall(libc::SYS_getrandom, buf, n, flags) as isize;
    }
    for (k, b) in std::slice::from_raw_parts_mut(buf as *mut u8, n).iter_mut().enumerate() {
        *b = 17 + k as u8;
    }
    n as isize
}

/// `child SCENARIO TIER`, in the directory of the image.
pub fn child(args: &[String]) -> ! {
    SAME.store(true, std::sync::atomic::Ordering::SeqCst);
    let sc = scenarios(args[1] == "t")[args[0].parse::<usize>().unwrap()].clone();
    let mut db = MemoryDatastore::create_msgpack_db(sc.path);
    let say = |s: String| {
        println!("{s}");
    };
    if let Some(b) = &sc.before {
        for op in b {
            apply(&db, op);
        }
        if let Err(e) = db.sync() {
            say(format!("BAD the previous sync failed: {e}"));
            std::process::exit(3);
        }
        if sc.loaded {
            db = match MemoryDatastore::read_msgpack_db(sc.path) {
                Ok(db) => db,
                Err(e) => {
                    say(format!("BAD the previous image cannot be read: {e}"));
                    std::process::exit(3);
                }
            };
        }
    }
    for op in &sc.then {
        apply(&db, op);
    }
    unsafe { libc::raise(libc::SIGSTOP) };
    let r = mc_core::run::catch(|| db.sync());
    unsafe { libc::raise(libc::SIGSTOP) };
    say(match &r {
        Ok(Ok(())) => "OK".into(),
        Ok(Err(e)) => format!("ERR {e}").replace('\n', " "),
        Err(p) => format!("PANIC {p}").replace('\n', " "),
    });
    // The store goes on, whatever happened.
    let usable = mc_core::run::catch(|| -> Result<(), String> {
        let (_, new, m) = models(&sc);
        let bat = battery(&uni(), Depth::Full);
        check_state(&db, &new, &bat).map_err(|e| format!("the store changed: {e}"))?;
        for op in later() {
            apply(&db, &op);
        }
        check_state(&db, &m, &bat).map_err(|e| format!("later operations: {e}"))?;
        db.sync().map_err(|e| format!("a later sync failed: {e}"))
    });
    say(match usable {
        Ok(Ok(())) => "USABLE".into(),
        Ok(Err(e)) => format!("BAD {e}").replace('\n', " "),
        Err(p) => format!("BAD panic: {p}").replace('\n', " "),
    });
    std::process::exit(0);
}

// ---- The tracer -------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Nothing,
    Kill,
    /// Fails with this error, once or from here on.
    Fail(i32, bool),
    /// Writes only the first part (thousandths, 0 for one byte, 1000 for all but one).
    Short(u32),
    ShortKill(u32),
    /// Writes the first part, then the disk stays full.
    ShortFull(u32),
    /// Reports nothing written.
    Zero(bool),
}

#[derive(Clone, Debug)]
struct Call {
    name: &'static str,
    nr: i64,
    len: u64,
}

pub(crate) const FILE_CALLS: &[(i64, &str)] = &[
    (libc::SYS_open, "open"), (libc::SYS_openat, "open"), (libc::SYS_openat2, "open"), (libc::SYS_creat, "open"),
    (libc::SYS_write, "write"), (libc::SYS_pwrite64, "write"), (libc::SYS_writev, "writev"), (libc::SYS_pwritev, "writev"),
    (libc::SYS_sendfile, "sendfile"), (libc::SYS_copy_file_range, "copy_file_range"), (libc::SYS_fallocate, "fallocate"),
    (libc::SYS_rename, "rename"), (libc::SYS_renameat, "rename"), (libc::SYS_renameat2, "rename"),
    (libc::SYS_link, "link"), (libc::SYS_linkat, "link"), (libc::SYS_symlink, "link"), (libc::SYS_symlinkat, "link"),
    (libc::SYS_unlink, "unlink"), (libc::SYS_unlinkat, "unlink"), (libc::SYS_mkdir, "mkdir"), (libc::SYS_mkdirat, "mkdir"),
    (libc::SYS_fsync, "fsync"), (libc::SYS_fdatasync, "fsync"), (libc::SYS_syncfs, "fsync"), (libc::SYS_sync_file_range, "sync_file_range"),
    (libc::SYS_ftruncate, "truncate"), (libc::SYS_truncate, "truncate"), (libc::SYS_close, "close"), (libc::SYS_lseek, "lseek"),
    (libc::SYS_stat, "stat"), (libc::SYS_fstat, "stat"), (libc::SYS_lstat, "stat"), (libc::SYS_newfstatat, "stat"), (libc::SYS_statx, "stat"),
    (libc::SYS_chmod, "chmod"), (libc::SYS_fchmod, "chmod"), (libc::SYS_fchmodat, "chmod"), (libc::SYS_fchown, "chmod"), (libc::SYS_fcntl, "fcntl"),
    (libc::SYS_read, "read"), (libc::SYS_pread64, "read"), (libc::SYS_ioctl, "ioctl"), (libc::SYS_flock, "flock"),
];

fn menu(c: &Call) -> Vec<Do> {
    let mut v = vec![Do::Kill];
    let once = |v: &mut Vec<Do>, es: &[i32]| v.extend(es.iter().map(|e| Do::Fail(*e, false)));
    match c.name {
        "open" => {
            once(&mut v, &[libc::EIO, libc::ENOSPC, libc::EMFILE, libc::EACCES, libc::EINTR]);
            v.extend([Do::Fail(libc::ENOSPC, true), Do::Fail(libc::EROFS, true)]);
        }
        "write" | "writev" | "sendfile" | "copy_file_range" => {
            once(&mut v, &[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EINTR]);
            v.extend([Do::Fail(libc::EIO, true), Do::Fail(libc::ENOSPC, true), Do::Zero(false), Do::Zero(true)]);
            if c.name == "write" && c.len > 1 {
                for k in [0, 500, 1000] {
                    v.extend([Do::Short(k), Do::ShortKill(k), Do::ShortFull(k)]);
                }
            }
        }
        "rename" | "link" => {
            once(&mut v, &[libc::EIO, libc::ENOSPC, libc::EXDEV, libc::EACCES, libc::ENOENT]);
            v.extend([Do::Fail(libc::EIO, true), Do::Fail(libc::EROFS, true)]);
        }
        "fsync" | "sync_file_range" => {
            once(&mut v, &[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EINTR]);
            v.push(Do::Fail(libc::EIO, true));
        }
        _ => once(&mut v, &[libc::EIO, libc::ENOSPC]),
    }
    v
}

struct Seen {
    calls: Vec<Call>,
    injected: bool,
    killed: bool,
    out: String,
    status: String,
}

struct Disk {
    dir: PathBuf,
    image: PathBuf,
    /// Inode -> how much is known to be on the disk.
    synced: HashMap<u64, u64>,
    always: HashSet<u64>,
}

impl Disk {
    fn mark_all(&mut self) {
        let mut todo = vec![self.dir.clone()];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                if let Ok(md) = e.metadata() {
                    if md.is_dir() {
                        todo.push(e.path());
                    } else {
                        self.synced.insert(md.ino(), md.len());
                    }
                }
            }
        }
    }
    /// What the image file holds: as it is, and as a loss of power may leave it.
    fn views(&self) -> Vec<(&'static str, Option<Vec<u8>>)> {
        let now = std::fs::read(&self.image).ok();
        let mut v = vec![("if the process died", now.clone())];
        if let (Some(data), Ok(md)) = (now, std::fs::metadata(&self.image)) {
            let s = if self.always.contains(&md.ino()) { data.len() } else { *self.synced.get(&md.ino()).unwrap_or(&0) as usize };
            if s < data.len() {
                v.push(("if power were lost", Some(data[..s].to_vec())));
                v.push(("if power were lost, with half the unsynced data written", Some(data[..s + (data.len() - s) / 2].to_vec())));
                let mut z = data.clone();
                z[s..].fill(0);
                v.push(("if power were lost, with zeroes for the unsynced data", Some(z)));
            }
        }
        v
    }
}

unsafe fn pt(req: u32, pid: i32, addr: usize, data: usize) -> i64 {
    libc::ptrace(req, pid, addr, data)
}

/// Runs the scenario, doing `what` at the `at`-th file operation of the sync;
/// `judge` sees what is on the disk before each system call and at the end.
fn trace(si: usize, t: bool, dir: &Path, sc: &Scenario, at: usize, what: Do, judge: &mut dyn FnMut(&Disk, &str, bool) -> Result<(), String>) -> Result<Seen, String> {
    std::fs::create_dir_all(dir.join("d")).unwrap();
    let outp = dir.with_extension("out");
    let out = std::fs::File::create(&outp).unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("child").arg(si.to_string()).arg(if t { "t" } else { "q" }).current_dir(dir).env("TMPDIR", dir).stdin(Stdio::null()).stdout(out).stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut seen = Seen { calls: vec![], injected: false, killed: false, out: String::new(), status: String::new() };
    let mut disk = Disk { dir: dir.to_path_buf(), image: dir.join(sc.path), synced: Default::default(), always: Default::default() };
    let mut kid = cmd.spawn().map_err(|e| format!("HARNESS: cannot trace: {e}"))?;
    let pid = kid.id() as i32;
    let mut verdict: Result<(), String> = Ok(());
    let mut started = false;
    let mut ended = false;
    // Per thread: the system call it is in, and what to do when it returns.
    let mut inside: HashMap<i32, (libc::user_regs_struct, Option<i64>, bool)> = HashMap::new();
    let mut sticky: Option<(i64, Do)> = None;
    let mut first = true;
    unsafe {
        loop {
            let mut st = 0;
            let w = libc::waitpid(if first { pid } else { -1 }, &mut st, libc::__WALL);
            if w < 0 {
                break;
            }
            if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
                if w == pid {
                    seen.status = if libc::WIFEXITED(st) { format!("exit {}", libc::WEXITSTATUS(st)) } else { format!("signal {}", libc::WTERMSIG(st)) };
                    break;
                }
                continue;
            }
            if first {
                first = false;
                pt(libc::PTRACE_SETOPTIONS, pid, 0, (libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL | libc::PTRACE_O_TRACECLONE | libc::PTRACE_O_TRACEFORK | libc::PTRACE_O_TRACEVFORK) as usize);
                pt(libc::PTRACE_CONT, pid, 0, 0);
                continue;
            }
            let sig = libc::WSTOPSIG(st);
            let go = |sig: i32, on: bool| pt(if on { libc::PTRACE_SYSCALL } else { libc::PTRACE_CONT }, w, 0, sig as usize);
            if sig != libc::SIGTRAP | 0x80 {
                let active = started && !ended;
                match sig {
                    libc::SIGSTOP if w == pid => {
                        if !started {
                            started = true;
                            disk.mark_all();
                            go(0, true);
                        } else {
                            ended = true;
                            if verdict.is_ok() {
                                verdict = judge(&disk, "after the sync", true);
                            }
                            go(0, false);
                        }
                    }
                    libc::SIGTRAP | libc::SIGSTOP => {
                        go(0, active);
                    }
                    s => {
                        go(s, active);
                    }
                }
                continue;
            }
            let mut r: libc::user_regs_struct = std::mem::zeroed();
            pt(libc::PTRACE_GETREGS, w, 0, &mut r as *mut _ as usize);
            if let Some((was, ret, kill)) = inside.remove(&w) {
                // Returning.
                let mut set = false;
                if r.rdx != was.rdx {
                    r.rdx = was.rdx;
                    set = true;
                }
                if let Some(x) = ret {
                    r.rax = x as u64;
                    set = true;
                }
                if set {
                    pt(libc::PTRACE_SETREGS, w, 0, &r as *const _ as usize);
                }
                let ok = (r.rax as i64) >= 0;
                let fdino = |fd: u64| std::fs::metadata(format!("/proc/{pid}/fd/{fd}")).ok();
                match was.orig_rax as i64 {
                    libc::SYS_fsync | libc::SYS_fdatasync if ok => {
                        if let Some(md) = fdino(was.rdi) {
                            disk.synced.insert(md.ino(), md.len());
                        }
                    }
                    libc::SYS_syncfs | libc::SYS_sync if ok => disk.mark_all(),
                    n @ (libc::SYS_openat | libc::SYS_open) if ok => {
                        let flags = if n == libc::SYS_openat { was.rdx } else { was.rsi };
                        if flags & libc::O_DSYNC as u64 != 0 {
                            if let Some(md) = fdino(r.rax) {
                                disk.always.insert(md.ino());
                            }
                        }
                    }
                    _ => {}
                }
                if kill {
                    seen.killed = true;
                    if verdict.is_ok() {
                        verdict = judge(&disk, "after a write cut short", false);
                    }
                    libc::kill(pid, libc::SIGKILL);
                    continue;
                }
                go(0, !ended);
                continue;
            }
            // Entering.
            let nr = r.orig_rax as i64;
            let was = r;
            let mut ret = None;
            let mut kill = false;
            if let Some((_, name)) = FILE_CALLS.iter().find(|(n, _)| *n == nr) {
                let k = seen.calls.len();
                seen.calls.push(Call { name, nr, len: r.rdx });
                if verdict.is_ok() {
                    verdict = judge(&disk, &format!("before operation {k} of the sync ({name})"), false);
                }
                let todo = match &sticky {
                    Some((_, d)) if matches!(*name, "write" | "writev" | "open" | "sendfile" | "copy_file_range" | "fallocate") && matches!(d, Do::ShortFull(_)) => Do::Fail(libc::ENOSPC, true),
                    Some((n, d)) if *n == nr => *d,
                    _ if k == at && what != Do::Nothing => {
                        seen.injected = true;
                        if matches!(what, Do::Fail(_, true) | Do::Zero(true)) {
                            sticky = Some((nr, what));
                        }
                        if matches!(what, Do::ShortFull(_)) {
                            sticky = Some((nr, what));
                        }
                        what
                    }
                    _ => Do::Nothing,
                };
                let part = |k: u32, n: u64| match k {
                    0 => 1,
                    1000 => n - 1,
                    k => (n * k as u64 / 1000).max(1),
                };
                match todo {
                    Do::Nothing => {}
                    Do::Kill => {
                        seen.killed = true;
                        r.orig_rax = u64::MAX;
                        pt(libc::PTRACE_SETREGS, w, 0, &r as *const _ as usize);
                        libc::kill(pid, libc::SIGKILL);
                        continue;
                    }
                    Do::Fail(e, _) => {
                        // Closing happens even when it fails.
                        if *name != "close" {
                            r.orig_rax = u64::MAX;
                        }
                        ret = Some(-(e as i64));
                        pt(libc::PTRACE_SETREGS, w, 0, &r as *const _ as usize);
                    }
                    Do::Zero(_) => {
                        r.orig_rax = u64::MAX;
                        ret = Some(0);
                        pt(libc::PTRACE_SETREGS, w, 0, &r as *const _ as usize);
                    }
                    Do::Short(k) | Do::ShortKill(k) | Do::ShortFull(k) => {
                        if *name == "write" && r.rdx > 1 {
                            r.rdx = part(k, r.rdx);
                            pt(libc::PTRACE_SETREGS, w, 0, &r as *const _ as usize);
                        }
                        kill = matches!(todo, Do::ShortKill(_));
                    }
                }
            }
            inside.insert(w, (was, ret, kill));
            go(0, true);
        }
    }
    drop(kid.stdout.take());
    // Already waited for.
    std::mem::forget(kid);
    seen.out = std::fs::read_to_string(&outp).unwrap_or_default();
    let _ = std::fs::remove_file(&outp);
    verdict.map(|_| seen)
}

fn load(dir: &Path, data: &[u8], want: &[&Model]) -> Result<(), String> {
    let p = dir.with_extension("img");
    std::fs::write(&p, data).unwrap();
    let r = mc_core::run::catch(|| {
        let db = MemoryDatastore::read_msgpack_db(&p).map_err(|e| format!("it cannot be loaded ({} bytes): {e}", data.len()))?;
        let bat = battery(&uni(), Depth::Full);
        let mut errs = vec![];
        for m in want {
            match check_state(&db, m, &bat) {
                Ok(_) => return Ok(()),
                Err(e) => errs.push(e),
            }
        }
        Err(format!("it holds neither the previous nor the new state: {}", errs.join("; or ")))
    })
    .unwrap_or_else(|p| Err(format!("panic: {p}")));
    let _ = std::fs::remove_file(&p);
    r
}

fn hash_of(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

struct Image {
    t: bool,
    si: usize,
    sc: Scenario,
    ms: (Option<Model>, Model, Model),
    jobs: Vec<(usize, Do)>,
    calls: Vec<Call>,
}

impl Image {
    fn go(&self, at: usize, what: Do, env: &mut Env) -> Result<(), String> {
        let dir = env.fresh_path();
        let mut good: HashSet<(Vec<u8>, bool)> = HashSet::new();
        let mut n = 0;
        let (old, new, late) = (&self.ms.0, &self.ms.1, &self.ms.2);
        let seen = trace(self.si, self.t, &dir, &self.sc, at, what, &mut |disk, when, _| {
            for (how, data) in disk.views() {
                n += 1;
                match (data, old) {
                    (None, None) => {}
                    (None, Some(_)) => return Err(format!("{when}, {how}: there is no image any more")),
                    (Some(data), _) => {
                        if good.contains(&(data.clone(), false)) {
                            continue;
                        }
                        let want: Vec<&Model> = old.iter().chain([new]).collect();
                        load(&disk.dir, &data, &want).map_err(|e| format!("{when}, {how}, the image is spoilt: {e}"))?;
                        good.insert((data, false));
                    }
                }
            }
            Ok(())
        })?;
        env.count("file operations seen", seen.calls.len() as u64);
        env.count("images judged", n);
        env.count("transitions", seen.calls.len() as u64);
        env.count("sequences replayed", 1);
        for (data, _) in &good {
            env.state(hash_of(&(self.si, data)));
        }
        let image = dir.join(self.sc.path);
        if seen.killed {
            // Another process takes over.
            env.count("processes killed", 1);
            let bat = battery(&uni(), Depth::Full);
            let (db, mut m) = match std::fs::metadata(&image) {
                Err(_) => (MemoryDatastore::create_msgpack_db(&image), Model::default()),
                Ok(_) => {
                    let db = MemoryDatastore::read_msgpack_db(&image).map_err(|e| format!("the image cannot be loaded after the process died: {e}"))?;
                    let m = match old {
                        Some(o) if check_state(&db, o, &bat).is_ok() => o,
                        _ => new,
                    };
                    (db, m.clone())
                }
            };
            for op in [Op::Delete(indradb::Query::AllVertex), cv(1, "x"), sv(1, "q", "1")] {
                let got = apply(&db, &op);
                let want = apply_model(&mut m, &op, &db).map_err(|e| format!("HARNESS: {e}"))?;
                if got != want {
                    return Err(format!("after taking over, {} answered {}", optext(&op), ans_text(&got)));
                }
            }
            db.sync().map_err(|e| format!("after the process died, the sync of the next one failed: {e}"))?;
            load(&dir, &std::fs::read(&image).map_err(|e| format!("no image after a sync: {e}"))?, &[&m]).map_err(|e| format!("the next process's image: {e}"))?;
        } else {
            let lines: Vec<&str> = seen.out.lines().collect();
            if lines.len() != 2 {
                return Err(format!("the process ended without an answer ({}): {:?}", seen.status, seen.out));
            }
            if lines[0].starts_with("PANIC") {
                return Err(format!("the sync panicked: {}", lines[0]));
            }
            if what == Do::Nothing && lines[0] != "OK" {
                return Err(format!("the sync failed by itself: {}", lines[0]));
            }
            env.count(if lines[0] == "OK" { "syncs that succeeded" } else { "syncs that failed" }, 1);
            if lines[1] != "USABLE" {
                return Err(format!("after a sync that answered {}: {}", lines[0], lines[1]));
            }
            load(&dir, &std::fs::read(&image).map_err(|e| format!("no image after a later sync: {e}"))?, &[late]).map_err(|e| format!("after a later sync: {e}"))?;
        }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    }
    /// A success means that the new image is there and stays there.
    fn success(&self, at: usize, what: Do, env: &mut Env) -> Result<(), String> {
        let dir = env.fresh_path();
        let mut end: Vec<(&'static str, Option<Vec<u8>>)> = vec![];
        let seen = trace(self.si, self.t, &dir, &self.sc, at, what, &mut |disk, _, last| {
            if last {
                end = disk.views();
            }
            Ok(())
        })?;
        if !seen.killed && seen.out.starts_with("OK") {
            for (how, data) in end {
                let Some(data) = data else { return Err("the sync answered success, and there is no image".into()) };
                load(&dir, &data, &[&self.ms.1]).map_err(|e| format!("the sync answered success, but {how}, the image is not the new one: {e}"))?;
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    }
}

impl Part for Image {
    fn name(&self) -> String {
        format!("image: {}", self.sc.name)
    }
    fn len(&self) -> u64 {
        self.jobs.len() as u64
    }
    fn text(&self, i: u64) -> String {
        let (at, what) = self.jobs[i as usize];
        let name = self.calls.get(at).map_or("?", |c| c.name);
        if what == Do::Nothing {
            "undisturbed".into()
        } else {
            format!("{what:?} at operation {at} of the sync ({name})")
        }
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let (at, what) = self.jobs[i as usize];
        env.count("interrupted syncs", (what != Do::Nothing) as u64);
        let r = self.go(at, what, env).and_then(|_| if matches!(what, Do::Kill | Do::ShortKill(_)) { Ok(()) } else { self.success(at, what, env) });
        r.map_err(|e| Fail::new(&format!("{} | {}", self.name(), self.text(i)), format!("[{}] {}: {e}", self.name(), self.text(i))))
    }
}

/// Images at places where they cannot be written.
fn hopeless(k: u64, env: &mut Env) -> Result<(), Fail> {
    let dir = env.fresh_path();
    std::fs::create_dir_all(&dir).unwrap();
    let path = match k {
        0 => dir.join("missing").join("image"),
        1 => {
            std::fs::create_dir_all(dir.join("image").join("x")).unwrap();
            dir.join("image")
        }
        2 => {
            std::fs::write(dir.join("file"), b"").unwrap();
            dir.join("file").join("image")
        }
        3 => dir.join("n".repeat(300)),
        _ => PathBuf::from("/dev/full/image"),
    };
    let run = || -> Result<(), String> {
        let db = MemoryDatastore::create_msgpack_db(&path);
        let mut m = Model::default();
        let bat = battery(&uni(), Depth::Full);
        for round in 0..2 {
            for op in [cv(1 + round, "x"), sv(1, "p", "1"), index("p")] {
                let got = apply(&db, &op);
                let want = apply_model(&mut m, &op, &db)?;
                if got != want {
                    return Err(format!("{} answered {}", optext(&op), ans_text(&got)));
                }
            }
            if mc_core::run::catch(|| db.sync()).map_err(|p| format!("the sync panicked: {p}"))?.is_ok() {
                return Err("a sync that cannot have written anything answered success".into());
            }
            check_state(&db, &m, &bat)?;
        }
        // Once there is room for it, it goes there.
        match k {
            0 => std::fs::create_dir(dir.join("missing")).unwrap(),
            1 => std::fs::remove_dir_all(dir.join("image")).unwrap(),
            2 => {
                std::fs::remove_file(dir.join("file")).unwrap();
                std::fs::create_dir(dir.join("file")).unwrap();
            }
            _ => return Ok(()),
        }
        db.sync().map_err(|e| format!("a sync still fails after the obstacle is gone: {e}"))?;
        let db = MemoryDatastore::read_msgpack_db(&path).map_err(|e| format!("cannot load: {e}"))?;
        check_state(&db, &m, &bat).map(|_| ())
    };
    let r = run();
    let _ = std::fs::remove_dir_all(&dir);
    r.map_err(|e| Fail::new(&format!("hopeless {k}"), format!("image at {path:?}: {e}")))
}

pub fn c15(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    let scratch = std::env::temp_dir().join(format!("mc-c15-{}", std::process::id()));
    for (si, sc) in scenarios(t).into_iter().enumerate() {
        // What there is to disturb.
        let dir = scratch.join(format!("dry{si}"));
        let calls = match trace(si, t, &dir, &sc, usize::MAX, Do::Nothing, &mut |_, _, _| Ok(())) {
            Ok(s) => s.calls,
            Err(e) => panic!("{e}"),
        };
        let _ = std::fs::remove_dir_all(&scratch);
        let mut jobs = vec![(0, Do::Nothing)];
        for (k, c) in calls.iter().enumerate() {
            // Of a long run of writes, all are interrupted; the middle ones in fewer ways.
            let writes = calls.iter().filter(|x| x.nr == c.nr).count();
            let nth = calls[..k].iter().filter(|x| x.nr == c.nr).count();
            let dull = writes > 8 && nth > 2 && nth + 3 < writes;
            for d in menu(c) {
                if dull && !matches!(d, Do::Kill | Do::Fail(libc::ENOSPC, _) | Do::Short(500) | Do::ShortFull(500)) {
                    continue;
                }
                jobs.push((k, d));
            }
        }
        let ms = models(&sc);
        p.push(Box::new(Image { t, si, sc, ms, jobs, calls }));
    }
    p.push(cases("places that cannot be written", 5, hopeless, |i| format!("place {i}")));
    p
}
