//! Stands between the `rocksdb` crate and the RocksDB library (by `ld
//! --wrap`): every call can be made to fail, and is a scheduling point.
#![allow(non_snake_case, clippy::missing_safety_doc)]
use std::collections::BTreeSet;
use std::ffi::{c_char, c_int, c_uchar, c_void};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

type P = *mut c_void;

static ARMED: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicU64 = AtomicU64::new(0);
static AT: AtomicU64 = AtomicU64::new(0);
static STICKY: AtomicBool = AtomicBool::new(false);
static HITS: AtomicU64 = AtomicU64::new(0);
static WHAT: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
/// Iterators that have failed; an iterator that failed stays failed.
static BROKEN: Mutex<BTreeSet<usize>> = Mutex::new(BTreeSet::new());

/// Makes the `at`-th (from 1) call that can fail do so, or all from there on.
pub fn arm(at: u64, sticky: bool) {
    CALLS.store(0, SeqCst);
    HITS.store(0, SeqCst);
    AT.store(at, SeqCst);
    STICKY.store(sticky, SeqCst);
    WHAT.lock().unwrap().clear();
    ARMED.store(true, SeqCst);
}

/// Stops failing. Returns the calls that could have failed, and those that did.
pub fn disarm() -> (u64, Vec<&'static str>) {
    ARMED.store(false, SeqCst);
    (CALLS.load(SeqCst), WHAT.lock().unwrap().clone())
}

fn fails(what: &'static str) -> bool {
    crate::sched::point(what);
    injected(what)
}

fn injected(what: &'static str) -> bool {
    if !ARMED.load(SeqCst) {
        return false;
    }
    let n = CALLS.fetch_add(1, SeqCst) + 1;
    let at = AT.load(SeqCst);
    if n == at || (n > at && STICKY.load(SeqCst)) {
        HITS.fetch_add(1, SeqCst);
        let mut w = WHAT.lock().unwrap();
        if w.len() < 4 {
            w.push(what);
        }
        true
    } else {
        false
    }
}

unsafe fn set(err: *mut *mut c_char) {
    *err = libc::strdup(c"IO error: injected fault".as_ptr());
}

macro_rules! failing {
    ($($name:literal $wrap:ident $real:ident ($($a:ident: $t:ty),*) -> $r:ty = $dflt:expr;)*) => {$(
        extern "C" { fn $real($($a: $t,)* err: *mut *mut c_char) -> $r; }
        #[no_mangle]
        pub unsafe extern "C" fn $wrap($($a: $t,)* err: *mut *mut c_char) -> $r {
            if fails($name) {
                set(err);
                return $dflt;
            }
            $real($($a,)* err)
        }
    )*};
}

failing! {
    "get" __wrap_rocksdb_get_cf __real_rocksdb_get_cf(d: P, o: P, c: P, k: P, n: usize, l: P) -> P = std::ptr::null_mut();
    "get" __wrap_rocksdb_get_pinned_cf __real_rocksdb_get_pinned_cf(d: P, o: P, c: P, k: P, n: usize) -> P = std::ptr::null_mut();
    "put" __wrap_rocksdb_put_cf __real_rocksdb_put_cf(d: P, o: P, c: P, k: P, n: usize, v: P, m: usize) -> () = ();
    "delete" __wrap_rocksdb_delete_cf __real_rocksdb_delete_cf(d: P, o: P, c: P, k: P, n: usize) -> () = ();
    "delete range" __wrap_rocksdb_delete_range_cf __real_rocksdb_delete_range_cf(d: P, o: P, c: P, k: P, n: usize, v: P, m: usize) -> () = ();
    "write" __wrap_rocksdb_write __real_rocksdb_write(d: P, o: P, b: P) -> () = ();
    "flush" __wrap_rocksdb_flush __real_rocksdb_flush(d: P, o: P) -> () = ();
    "flush" __wrap_rocksdb_flush_cf __real_rocksdb_flush_cf(d: P, o: P, c: P) -> () = ();
    "flush WAL" __wrap_rocksdb_flush_wal __real_rocksdb_flush_wal(d: P, s: c_uchar) -> () = ();
    "create column family" __wrap_rocksdb_create_column_family __real_rocksdb_create_column_family(d: P, o: P, n: P) -> P = std::ptr::null_mut();
    "drop column family" __wrap_rocksdb_drop_column_family __real_rocksdb_drop_column_family(d: P, c: P) -> () = ();
    "open" __wrap_rocksdb_open __real_rocksdb_open(o: P, n: P) -> P = std::ptr::null_mut();
    "open" __wrap_rocksdb_open_column_families __real_rocksdb_open_column_families(o: P, n: P, k: c_int, a: P, b: P, c: P) -> P = std::ptr::null_mut();
    "list column families" __wrap_rocksdb_list_column_families __real_rocksdb_list_column_families(o: P, n: P, l: P) -> P = std::ptr::null_mut();
    "repair" __wrap_rocksdb_repair_db __real_rocksdb_repair_db(o: P, n: P) -> () = ();
}

extern "C" {
    fn __real_rocksdb_compact_range_cf(d: P, c: P, k: P, n: usize, l: P, m: usize);
    fn __real_rocksdb_create_iterator_cf(d: P, o: P, c: P) -> P;
    fn __real_rocksdb_iter_valid(i: P) -> c_uchar;
    fn __real_rocksdb_iter_get_error(i: P, err: *mut *mut c_char);
    fn __real_rocksdb_iter_destroy(i: P);
    fn __real_rocksdb_iter_seek(i: P, k: P, n: usize);
    fn __real_rocksdb_iter_seek_to_first(i: P);
    fn __real_rocksdb_iter_next(i: P);
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_rocksdb_compact_range_cf(d: P, c: P, k: P, n: usize, l: P, m: usize) {
    crate::sched::point("compact");
    __real_rocksdb_compact_range_cf(d, c, k, n, l, m)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rocksdb_create_iterator_cf(d: P, o: P, c: P) -> P {
    crate::sched::point("iterate");
    __real_rocksdb_create_iterator_cf(d, o, c)
}

unsafe fn moved(i: P, what: &'static str) {
    // Iterators read a snapshot: not a scheduling point.
    if injected(what) {
        BROKEN.lock().unwrap().insert(i as usize);
    }
}
fn broken(i: P) -> bool {
    ARMED.load(SeqCst) && BROKEN.lock().unwrap().contains(&(i as usize))
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_rocksdb_iter_valid(i: P) -> c_uchar {
    if broken(i) {
        return 0;
    }
    __real_rocksdb_iter_valid(i)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rocksdb_iter_get_error(i: P, err: *mut *mut c_char) {
    if broken(i) {
        return set(err);
    }
    __real_rocksdb_iter_get_error(i, err)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rocksdb_iter_destroy(i: P) {
    BROKEN.lock().unwrap().remove(&(i as usize));
    __real_rocksdb_iter_destroy(i)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rocksdb_iter_seek(i: P, k: P, n: usize) {
    moved(i, "seek");
    __real_rocksdb_iter_seek(i, k, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rocksdb_iter_seek_to_first(i: P) {
    moved(i, "seek");
    __real_rocksdb_iter_seek_to_first(i)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_rocksdb_iter_next(i: P) {
    moved(i, "next");
    __real_rocksdb_iter_next(i)
}
