//! A datastore that fails, around a real one.
use indradb::{BulkInsertItem, Datastore, DynIter, Edge, Error, Identifier, Json, Result, Transaction, Vertex};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use uuid::Uuid;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Taken,
    Datastore,
    Io,
    NotIndexed,
    Unsupported,
    Invalid,
    OnQuery,
}
pub const KINDS: [Kind; 7] = [Kind::Datastore, Kind::Io, Kind::Taken, Kind::NotIndexed, Kind::Unsupported, Kind::Invalid, Kind::OnQuery];
impl Kind {
    fn error(self) -> Error {
        match self {
            Kind::Taken => Error::UuidTaken,
            Kind::Datastore => Error::Datastore(Box::new(std::io::Error::other("injected"))),
            Kind::Io => Error::Io(std::io::Error::other("injected")),
            Kind::NotIndexed => Error::NotIndexed,
            Kind::Unsupported => Error::Unsupported,
            Kind::Invalid => Error::Invalid(indradb::ValidationError::InvalidValue),
            Kind::OnQuery => Error::OperationOnQuery,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// Nothing is done, and an error returned.
    Before(Kind),
    /// It is done, and an error returned.
    After(Kind),
    /// Where an item fails, nothing follows it.
    Last(Kind),
    Panic,
    /// Every call fails from there on.
    On(Kind),
    /// It waits until it is let go.
    Wait,
    /// That many transactions wait before they begin.
    Begins,
}

/// Where calls wait; each until it is let go.
#[derive(Default)]
struct Gate {
    open: Vec<bool>,
    all: bool,
}

/// Says which of the calls (and items) fails.
#[derive(Default)]
pub struct Ctl {
    seen: AtomicU64,
    at: AtomicU64,
    mode: Mutex<Option<Mode>>,
    fired: Mutex<Option<&'static str>>,
    gate: Mutex<Gate>,
    moved: Condvar,
}

enum Do {
    Pass,
    Fail(Error),
    After(Error),
    Last(Error),
}

impl Ctl {
    /// Calls counted from now; the `at`th fails.
    pub fn arm(&self, at: u64, mode: Mode) {
        *self.mode.lock().unwrap() = Some(mode);
        self.at.store(at, Ordering::SeqCst);
        self.seen.store(0, Ordering::SeqCst);
        *self.fired.lock().unwrap() = None;
        *self.gate.lock().unwrap() = Gate::default();
    }
    /// Calls counted so far.
    pub fn calls(&self) -> u64 {
        self.seen.load(Ordering::SeqCst)
    }
    /// Which call failed, or waits.
    pub fn place(&self) -> Option<&'static str> {
        *self.fired.lock().unwrap()
    }
    fn park(&self) {
        let mut g = self.gate.lock().unwrap();
        let i = g.open.len();
        g.open.push(false);
        self.moved.notify_all();
        while !g.open[i] && !g.all {
            g = self.moved.wait(g).unwrap();
        }
    }
    /// Waits until that many calls wait or have waited, or that is given up.
    pub fn parked(&self, n: usize, most: Duration, give_up: impl Fn() -> bool) -> bool {
        let t = Instant::now();
        let mut g = self.gate.lock().unwrap();
        while g.open.len() < n {
            if t.elapsed() > most || give_up() {
                return false;
            }
            g = self.moved.wait_timeout(g, Duration::from_micros(200)).unwrap().0;
        }
        true
    }
    /// Lets the one go that came `i`th.
    pub fn release(&self, i: usize) {
        self.gate.lock().unwrap().open[i] = true;
        self.moved.notify_all();
    }
    pub fn release_all(&self) {
        self.gate.lock().unwrap().all = true;
        self.moved.notify_all();
    }
    /// No more failures: how many calls there were, and what failed.
    pub fn disarm(&self) -> (u64, Option<&'static str>) {
        *self.mode.lock().unwrap() = None;
        self.release_all();
        (self.seen.load(Ordering::SeqCst), self.fired.lock().unwrap().take())
    }
    /// `can`: whether an error can be returned here.
    fn hit(&self, what: &'static str, can: bool) -> Do {
        let n = self.seen.fetch_add(1, Ordering::SeqCst);
        let at = self.at.load(Ordering::SeqCst);
        let Some(mode) = *self.mode.lock().unwrap() else { return Do::Pass };
        match mode {
            Mode::Wait if n == at => {
                self.fired.lock().unwrap().get_or_insert(what);
                self.park();
            }
            Mode::Begins if what == "transaction" && (self.gate.lock().unwrap().open.len() as u64) < at => self.park(),
            _ => {}
        }
        let here = n == at || (n > at && matches!(mode, Mode::On(_)));
        if !here || (!can && mode != Mode::Panic) {
            return Do::Pass;
        }
        self.fired.lock().unwrap().get_or_insert(what);
        match mode {
            Mode::Before(k) | Mode::On(k) => Do::Fail(k.error()),
            Mode::After(k) => Do::After(k.error()),
            Mode::Last(k) => Do::Last(k.error()),
            Mode::Panic => panic!("injected"),
            Mode::Wait | Mode::Begins => Do::Pass,
        }
    }
    fn call<T>(&self, what: &'static str, f: impl FnOnce() -> Result<T>) -> Result<T> {
        match self.hit(what, true) {
            Do::Pass => f(),
            Do::Fail(e) | Do::Last(e) => Err(e),
            Do::After(e) => {
                let _ = f();
                Err(e)
            }
        }
    }
    fn items<'a, T: 'a>(&'a self, what: &'static str, mut it: DynIter<'a, T>) -> DynIter<'a, T> {
        let mut over = false;
        Box::new(std::iter::from_fn(move || {
            if over {
                return None;
            }
            let x = it.next()?;
            Some(match self.hit(what, true) {
                Do::Pass => x,
                Do::Fail(e) | Do::After(e) => Err(e),
                Do::Last(e) => {
                    over = true;
                    Err(e)
                }
            })
        }))
    }
}

pub struct Faulty<D: Datastore> {
    inner: D,
    ctl: Arc<Ctl>,
}
impl<D: Datastore> Faulty<D> {
    pub fn new(inner: D) -> (Faulty<D>, Arc<Ctl>) {
        let ctl = Arc::new(Ctl::default());
        (Faulty { inner, ctl: ctl.clone() }, ctl)
    }
}
impl<D: Datastore> Datastore for Faulty<D> {
    type Transaction<'a> = Txn<'a, D::Transaction<'a>> where D: 'a;
    fn transaction(&self) -> Self::Transaction<'_> {
        self.ctl.hit("transaction", false);
        Txn { inner: self.inner.transaction(), ctl: &self.ctl }
    }
}

pub struct Txn<'a, T> {
    inner: T,
    ctl: &'a Ctl,
}

macro_rules! lists {
    ($($name:ident($($arg:ident: $ty:ty),*) -> $item:ty;)*) => {$(
        fn $name(&'a self, $($arg: $ty),*) -> Result<DynIter<'a, $item>> {
            let it = self.ctl.call(stringify!($name), || self.inner.$name($($arg),*))?;
            Ok(self.ctl.items(concat!("an item of ", stringify!($name)), it))
        }
    )*};
}
macro_rules! maybes {
    ($($name:ident($($arg:ident: $ty:ty),*) -> $item:ty;)*) => {$(
        fn $name(&'a self, $($arg: $ty),*) -> Result<Option<DynIter<'a, $item>>> {
            let it = self.ctl.call(stringify!($name), || self.inner.$name($($arg),*))?;
            Ok(it.map(|it| self.ctl.items(concat!("an item of ", stringify!($name)), it)))
        }
    )*};
}
macro_rules! calls {
    ($($name:ident($($arg:ident: $ty:ty),*) -> $item:ty;)*) => {$(
        fn $name(&mut self, $($arg: $ty),*) -> Result<$item> {
            let inner = &mut self.inner;
            self.ctl.call(stringify!($name), || inner.$name($($arg),*))
        }
    )*};
}

impl<'a, T: Transaction<'a>> Transaction<'a> for Txn<'a, T> {
    fn vertex_count(&self) -> u64 {
        self.ctl.hit("vertex_count", false);
        self.inner.vertex_count()
    }
    fn edge_count(&self) -> u64 {
        self.ctl.hit("edge_count", false);
        self.inner.edge_count()
    }
    lists! {
        all_vertices() -> Vertex;
        range_vertices(offset: Uuid) -> Vertex;
        specific_vertices(ids: Vec<Uuid>) -> Vertex;
        all_edges() -> Edge;
        range_edges(offset: Edge) -> Edge;
        range_reversed_edges(offset: Edge) -> Edge;
        specific_edges(edges: Vec<Edge>) -> Edge;
        all_vertex_properties_for_vertex(vertex: &Vertex) -> (Identifier, Json);
        all_edge_properties_for_edge(edge: &Edge) -> (Identifier, Json);
    }
    maybes! {
        vertex_ids_with_property(name: Identifier) -> Uuid;
        vertex_ids_with_property_value(name: Identifier, value: &Json) -> Uuid;
        edges_with_property(name: Identifier) -> Edge;
        edges_with_property_value(name: Identifier, value: &Json) -> Edge;
    }
    fn vertex_property(&self, vertex: &Vertex, name: Identifier) -> Result<Option<Json>> {
        self.ctl.call("vertex_property", || self.inner.vertex_property(vertex, name))
    }
    fn edge_property(&self, edge: &Edge, name: Identifier) -> Result<Option<Json>> {
        self.ctl.call("edge_property", || self.inner.edge_property(edge, name))
    }
    fn sync(&self) -> Result<()> {
        self.ctl.call("sync", || self.inner.sync())
    }
    calls! {
        delete_vertices(vertices: Vec<Vertex>) -> ();
        delete_edges(edges: Vec<Edge>) -> ();
        delete_vertex_properties(props: Vec<(Uuid, Identifier)>) -> ();
        delete_edge_properties(props: Vec<(Edge, Identifier)>) -> ();
        create_vertex(vertex: &Vertex) -> bool;
        create_edge(edge: &Edge) -> bool;
        bulk_insert(items: Vec<BulkInsertItem>) -> ();
        index_property(name: Identifier) -> ();
        set_vertex_properties(vertices: Vec<Uuid>, name: Identifier, value: &Json) -> ();
        set_edge_properties(edges: Vec<Edge>, name: Identifier, value: &Json) -> ();
    }
}
