//! Stands between this process and the file system (by `ld --wrap`, so also
//! under the RocksDB library): before every call that changes a file of the
//! watched directory, what a crash at that point would leave is recorded.
#![allow(clippy::missing_safety_doc)]
use std::collections::{BTreeMap, HashMap, HashSet};
use std::ffi::{c_char, c_int, c_void, CStr};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// Files of the watched directory, by name relative to it.
pub type Files = BTreeMap<String, Arc<Vec<u8>>>;

#[derive(Clone)]
pub struct Shot {
    /// How many operations had been completed.
    pub done: usize,
    /// What had happened last, for people.
    pub what: String,
    pub files: Files,
    /// Power was lost, rather than just the process.
    pub power: bool,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Torn {
    /// Writes happen entirely or not at all.
    No,
    /// Writes are cut at a few places.
    Some,
    /// Writes are cut at every byte.
    All,
}

#[derive(Clone, Copy)]
pub struct Mode {
    pub torn: Torn,
    pub crash: bool,
    pub power: bool,
}

struct Rec {
    dir: PathBuf,
    mode: Mode,
    done: usize,
    calls: u64,
    shots: Vec<Shot>,
    seen: HashSet<u64>,
    /// Inode -> how much of the file is known to be on the disk.
    synced: HashMap<u64, u64>,
    cache: HashMap<u64, Arc<Vec<u8>>>,
}

static ON: AtomicBool = AtomicBool::new(false);
static REC: Mutex<Option<Rec>> = Mutex::new(None);

/// Logs and locks do not matter to the database.
fn idle(name: &str) -> bool {
    let n = name.rsplit('/').next().unwrap_or("");
    n == "LOCK" || n == "LOG" || n.starts_with("LOG.old")
}

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn walk(dir: &Path, pre: &str, out: &mut Vec<(String, PathBuf)>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut names: Vec<_> = rd.filter_map(|e| e.ok()).collect();
    names.sort_by_key(|e| e.file_name());
    for e in names {
        let name = format!("{pre}{}", e.file_name().to_string_lossy());
        match e.file_type() {
            Ok(t) if t.is_dir() => walk(&e.path(), &format!("{name}/"), out),
            Ok(t) if t.is_file() && !idle(&name) => out.push((name, e.path())),
            _ => {}
        }
    }
}

impl Rec {
    /// The files as they are, and how much of each is known to be on disk.
    fn read(&mut self) -> (Files, BTreeMap<String, u64>) {
        let mut names = vec![];
        walk(&self.dir, "", &mut names);
        let mut files = Files::new();
        let mut synced = BTreeMap::new();
        for (n, p) in names {
            let Ok(md) = std::fs::metadata(&p) else { continue };
            let Ok(data) = std::fs::read(&p) else { continue };
            let data = self.cache.entry(hash_of(&data)).or_insert_with(|| Arc::new(data)).clone();
            synced.insert(n.clone(), (*self.synced.get(&md.ino()).unwrap_or(&0)).min(data.len() as u64));
            files.insert(n, data);
        }
        (files, synced)
    }
    fn push(&mut self, what: String, files: Files, power: bool) {
        let h = hash_of(&(self.done, power, &files));
        if self.seen.insert(h) {
            self.shots.push(Shot { done: self.done, what, files, power });
        }
    }
    fn shot(&mut self, what: &str, write: Option<(&str, u64, &[u8])>) {
        let (files, synced) = self.read();
        if self.mode.crash {
            self.push(format!("before {what}"), files.clone(), false);
            if let Some((name, at, buf)) = write {
                let n = buf.len();
                let cuts: Vec<usize> = match self.mode.torn {
                    Torn::No => vec![],
                    Torn::Some => {
                        let mut c = vec![1, 6, 7, 8, n / 3, n / 2, n - n / 8, n.saturating_sub(9), n.saturating_sub(2), n.saturating_sub(1)];
                        // Boundaries of the log's blocks.
                        let mut b = 32768 - at as usize % 32768;
                        while b < n {
                            c.extend([b - 1, b, b + 1, b + 7]);
                            b += 32768;
                        }
                        c.retain(|k| *k > 0 && *k < n);
                        c.sort();
                        c.dedup();
                        c
                    }
                    Torn::All => (1..n).collect(),
                };
                for k in cuts {
                    let mut data = files.get(name).map_or(vec![], |d| d.to_vec());
                    let at = at as usize;
                    if data.len() < at + k {
                        data.resize(at + k, 0);
                    }
                    data[at..at + k].copy_from_slice(&buf[..k]);
                    let mut f = files.clone();
                    f.insert(name.to_string(), Arc::new(data));
                    self.push(format!("after {k} of the {n} bytes of {what}"), f, false);
                }
            }
        }
        if self.mode.power {
            let cut = |f: &Files, keep: &dyn Fn(&str, u64, u64) -> u64| -> Files {
                f.iter()
                    .map(|(n, d)| {
                        let k = keep(n, synced[n], d.len() as u64) as usize;
                        (n.clone(), if k >= d.len() { d.clone() } else { Arc::new(d[..k].to_vec()) })
                    })
                    .collect()
            };
            self.push(format!("power lost before {what}"), cut(&files, &|_, s, _| s), true);
            // Unsynced log data reaches the disk in the order it was written.
            let loose: Vec<String> = files.iter().filter(|(n, d)| synced[*n] < d.len() as u64).map(|x| x.0.clone()).collect();
            let is_log = |n: &str| n.ends_with(".log");
            for l in loose.iter().filter(|l| is_log(l)) {
                let keep = |n: &str, s: u64, len: u64, half: bool| match () {
                    _ if n == l && half => s + (len - s) / 2,
                    _ if is_log(n) && n <= l.as_str() => len,
                    _ => s,
                };
                self.push(format!("power lost before {what}, keeping half the tail of {l}"), cut(&files, &|n, s, len| keep(n, s, len, true)), true);
                self.push(format!("power lost before {what}, keeping the tail of {l}"), cut(&files, &|n, s, len| keep(n, s, len, false)), true);
            }
            for l in loose.iter().filter(|l| !is_log(l)) {
                self.push(format!("power lost before {what}, keeping the tail of {l}"), cut(&files, &|n, s, len| if n == l { len } else { s }), true);
            }
        }
    }
}

/// Starts recording what happens below `dir`.
pub fn start(dir: &Path, mode: Mode) {
    let mut rec = Rec {
        dir: dir.to_path_buf(), mode, done: 0, calls: 0, shots: vec![], seen: Default::default(), synced: Default::default(), cache: Default::default(),
    };
    // What is there already is taken to be on disk.
    let mut names = vec![];
    walk(dir, "", &mut names);
    for (_, p) in names {
        if let Ok(md) = std::fs::metadata(&p) {
            rec.synced.insert(md.ino(), md.len());
        }
    }
    *REC.lock().unwrap() = Some(rec);
    ON.store(true, SeqCst);
}

/// Operations completed from now on.
pub fn done(n: usize) {
    if let Some(r) = REC.lock().unwrap().as_mut() {
        r.done = n;
    }
}

/// Records also the present state, and stops.
pub fn stop() -> (Vec<Shot>, u64) {
    ON.store(false, SeqCst);
    match REC.lock().unwrap().take() {
        Some(mut r) => {
            r.shot("the end", None);
            (r.shots, r.calls)
        }
        None => (vec![], 0),
    }
}

/// Makes a directory with the files of a shot.
pub fn lay(files: &Files, dir: &Path) {
    std::fs::create_dir_all(dir).unwrap();
    for (n, d) in files {
        let p = dir.join(n);
        if let Some(parent) = p.parent() {
            std::fs::create_dir_all(parent).unwrap();
        }
        std::fs::write(p, d.as_slice()).unwrap();
    }
}

fn path_of_fd(fd: c_int) -> Option<PathBuf> {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).ok()
}

thread_local! {
    static INSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs a file-changing call, recording beforehand. What the recorder itself
/// does goes straight through.
unsafe fn watched<T>(path: Option<PathBuf>, what: &str, buf: Option<(i64, &[u8])>, sync: bool, call: impl Fn() -> T) -> T {
    let Some(path) = path else { return call() };
    let mut g = match REC.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    let Some(rec) = g.as_mut() else { return call() };
    let Ok(rel) = path.strip_prefix(&rec.dir).map(|p| p.to_string_lossy().to_string()) else { return call() };
    if idle(&rel) {
        return call();
    }
    INSIDE.with(|i| i.set(true));
    rec.calls += 1;
    rec.shot(&format!("{what} {rel}"), buf.map(|(at, b)| (rel.as_str(), at as u64, b)));
    let r = call();
    if sync {
        if let Ok(md) = std::fs::metadata(&path) {
            rec.synced.insert(md.ino(), md.len());
        }
    }
    INSIDE.with(|i| i.set(false));
    r
}

fn on() -> bool {
    ON.load(SeqCst) && !INSIDE.with(|i| i.get())
}

unsafe fn pstr(p: *const c_char) -> PathBuf {
    PathBuf::from(CStr::from_ptr(p).to_string_lossy().to_string())
}

extern "C" {
    fn __real_write(fd: c_int, b: *const c_void, n: usize) -> isize;
    fn __real_pwrite(fd: c_int, b: *const c_void, n: usize, at: i64) -> isize;
    fn __real_open(p: *const c_char, f: c_int, m: c_int) -> c_int;
    fn __real_rename(a: *const c_char, b: *const c_char) -> c_int;
    fn __real_link(a: *const c_char, b: *const c_char) -> c_int;
    fn __real_unlink(a: *const c_char) -> c_int;
    fn __real_mkdir(a: *const c_char, m: c_int) -> c_int;
    fn __real_rmdir(a: *const c_char) -> c_int;
    fn __real_ftruncate(fd: c_int, n: i64) -> c_int;
    fn __real_fsync(fd: c_int) -> c_int;
    fn __real_fdatasync(fd: c_int) -> c_int;
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if !on() || fd < 3 || n == 0 {
        return __real_write(fd, b, n);
    }
    let buf = std::slice::from_raw_parts(b as *const u8, n);
    let flags = libc::fcntl(fd, libc::F_GETFL);
    let at = if flags & libc::O_APPEND != 0 { libc::lseek(fd, 0, libc::SEEK_END) } else { libc::lseek(fd, 0, libc::SEEK_CUR) };
    if at < 0 {
        return __real_write(fd, b, n);
    }
    watched(path_of_fd(fd), "write to", Some((at, buf)), false, || __real_write(fd, b, n))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_pwrite(fd: c_int, b: *const c_void, n: usize, at: i64) -> isize {
    if !on() || n == 0 {
        return __real_pwrite(fd, b, n, at);
    }
    let buf = std::slice::from_raw_parts(b as *const u8, n);
    watched(path_of_fd(fd), "write to", Some((at, buf)), false, || __real_pwrite(fd, b, n, at))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_open(p: *const c_char, f: c_int, m: c_int) -> c_int {
    if !on() || f & (libc::O_CREAT | libc::O_TRUNC) == 0 {
        return __real_open(p, f, m);
    }
    watched(Some(pstr(p)), "creation of", None, false, || __real_open(p, f, m))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rename(a: *const c_char, b: *const c_char) -> c_int {
    if !on() {
        return __real_rename(a, b);
    }
    watched(Some(pstr(b)), "renaming to", None, false, || __real_rename(a, b))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_link(a: *const c_char, b: *const c_char) -> c_int {
    if !on() {
        return __real_link(a, b);
    }
    watched(Some(pstr(b)), "linking to", None, false, || __real_link(a, b))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_unlink(a: *const c_char) -> c_int {
    if !on() {
        return __real_unlink(a);
    }
    watched(Some(pstr(a)), "removal of", None, false, || __real_unlink(a))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_mkdir(a: *const c_char, m: c_int) -> c_int {
    if !on() {
        return __real_mkdir(a, m);
    }
    watched(Some(pstr(a)), "creation of directory", None, false, || __real_mkdir(a, m))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rmdir(a: *const c_char) -> c_int {
    if !on() {
        return __real_rmdir(a);
    }
    watched(Some(pstr(a)), "removal of directory", None, false, || __real_rmdir(a))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_ftruncate(fd: c_int, n: i64) -> c_int {
    if !on() {
        return __real_ftruncate(fd, n);
    }
    watched(path_of_fd(fd), "truncation of", None, false, || __real_ftruncate(fd, n))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_fsync(fd: c_int) -> c_int {
    if !on() {
        return __real_fsync(fd);
    }
    watched(path_of_fd(fd), "sync of", None, true, || __real_fsync(fd))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_fdatasync(fd: c_int) -> c_int {
    if !on() {
        return __real_fdatasync(fd);
    }
    watched(path_of_fd(fd), "sync of", None, true, || __real_fdatasync(fd))
}
