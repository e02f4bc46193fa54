//! Databases served over the loopback network, and the client to reach them.
use indradb::{Database, Datastore, MemoryDatastore, QueryOutputValue, RocksdbDatastore};
use indradb_proto::{Client, ClientError};
use mc_core::explore::{open_rocks, Served, Store};
use mc_core::model::*;
use mc_core::observe;
use mc_core::ops::*;
use mc_core::run::take_panic;
use std::future::Future;
use std::net::SocketAddr;
use std::path::Path;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;
use tokio::task::JoinHandle;
use tonic::transport::Endpoint;
use tonic::Code;

pub fn rt() -> &'static Runtime {
    static RT: OnceLock<Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}

/// One thread for servers of their own: what blocks it, stops them.
pub fn srv() -> &'static Runtime {
    static RT: OnceLock<Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap())
}

/// How long anything may take before it counts as never happening.
pub const PATIENCE: Duration = Duration::from_secs(20);

pub fn wait<T>(f: impl Future<Output = T>) -> Result<T, String> {
    rt().block_on(async { tokio::time::timeout(PATIENCE, f).await }).map_err(|_| "no answer within 20 s".to_string())
}

pub struct Remote<D: Datastore + Send + Sync + 'static> {
    pub db: Arc<Database<D>>,
    pub addr: SocketAddr,
    pub client: Mutex<Option<Client>>,
    task: JoinHandle<Result<(), String>>,
    gone: bool,
    held: usize,
}

pub async fn connect(addr: SocketAddr) -> Result<Client, String> {
    let e = Endpoint::from_shared(format!("http://{addr}")).map_err(|e| e.to_string())?;
    Client::new(e).await.map_err(|e| format!("connecting failed: {e}"))
}

impl<D: Datastore + Send + Sync + 'static> Remote<D> {
    pub fn new(db: Database<D>) -> Result<Remote<D>, String> {
        Remote::over(Arc::new(db), 1)
    }
    /// Serves a database that is held `held` times already.
    pub fn over(db: Arc<Database<D>>, held: usize) -> Result<Remote<D>, String> {
        Remote::with(db, held, None)
    }
    /// With the plugins that match the pattern, if one is given.
    pub fn with(db: Arc<Database<D>>, held: usize, plugins: Option<String>) -> Result<Remote<D>, String> {
        Remote::on(rt(), db, held, plugins)
    }
    /// With the server's tasks at the given place.
    pub fn on(place: &Runtime, db: Arc<Database<D>>, held: usize, plugins: Option<String>) -> Result<Remote<D>, String> {
        let d = db.clone();
        let setup = place.spawn(async move {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
            let addr = l.local_addr().map_err(|e| e.to_string())?;
            let task = tokio::spawn(async move {
                match plugins {
                    None => indradb_proto::run_server(d, l).await.map_err(|e| e.to_string()),
                    Some(p) => unsafe { indradb_proto::run_server_with_plugins(d, l, &p).await }.map_err(|e| format!("refused: {e:?}")),
                }
            });
            Ok::<_, String>((addr, task))
        });
        let (addr, task) = wait(setup)?.map_err(|e| e.to_string())??;
        let client = wait(connect(addr))??;
        Ok(Remote { db, addr, client: Mutex::new(Some(client)), task, gone: false, held })
    }
    /// A call through the client; a panic anywhere counts as no answer.
    pub fn call<T, F>(&self, f: impl FnOnce(Client) -> F) -> Result<T, String>
    where
        F: Future<Output = Result<T, ClientError>>,
    {
        let c = self.client.lock().unwrap().as_ref().expect("client").clone();
        call_with(c, f)
    }
    /// Stops serving, so that the database is closed.
    pub fn stop(&mut self) -> Result<(), String> {
        if self.gone {
            return Ok(());
        }
        self.gone = true;
        self.task.abort();
        *self.client.lock().unwrap() = None;
        let t = Instant::now();
        while Arc::strong_count(&self.db) > self.held {
            if t.elapsed() > PATIENCE {
                eprintln!("the server still holds the database");
                return Err("the server still holds the database".into());
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        Ok(())
    }
}

impl<D: Datastore + Send + Sync + 'static> Drop for Remote<D> {
    fn drop(&mut self) {
        let _ = self.stop();
    }
}

/// Whether panics are meant to happen, so that only the client's answer tells what it got.
pub static PANICS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn call_with<T, F: Future<Output = Result<T, ClientError>>>(c: Client, f: impl FnOnce(Client) -> F) -> Result<T, String> {
    let r = wait(f(c))?;
    if PANICS.load(std::sync::atomic::Ordering::SeqCst) {
        take_panic();
    } else if let Some(p) = take_panic() {
        return Err(format!("a panic: {p}"));
    }
    r.map_err(|e| err_net(&e))
}

/// An answer of the server that says so is an error like any other; anything
/// else (lost connections, strange codes) equals no expected answer.
pub fn err_net(e: &ClientError) -> String {
    match e {
        ClientError::Grpc { inner } => {
            let m = inner.message();
            match inner.code() {
                Code::Internal | Code::InvalidArgument | Code::FailedPrecondition | Code::NotFound | Code::AlreadyExists if !m.contains("panic") && !m.contains("h2 protocol") => {
                    format!("~{m}")
                }
                c => format!("code {c:?}: {m}"),
            }
        }
        e => format!("client: {e}"),
    }
}

fn unit(r: Result<(), String>) -> Ans {
    match r {
        Ok(()) => Ans::Ok,
        Err(e) => Ans::Err(e),
    }
}
fn created(r: Result<bool, String>) -> Ans {
    match r {
        Ok(b) => Ans::Created(b),
        Err(e) => Ans::Err(e),
    }
}

/// Something that calls a server.
pub trait Calls {
    fn call<T, F: Future<Output = Result<T, ClientError>>>(&self, f: impl FnOnce(Client) -> F) -> Result<T, String>;
}

/// An operation, carried out by requests.
pub fn run_by<C: Calls>(c: &C, op: &Op) -> Ans {
    match op {
        Op::CreateVertex(id, t) => {
            let v = indradb::Vertex::with_id(*id, ident(t));
            created(c.call(|mut c| async move { c.create_vertex(&v).await }))
        }
        Op::CreateEdge(a, t, b) => {
            let e = indradb::Edge::new(*a, ident(t), *b);
            created(c.call(|mut c| async move { c.create_edge(&e).await }))
        }
        Op::Delete(q) => unit(c.call(|mut c| async move { c.delete(q.clone()).await })),
        Op::Set(q, n, v) => unit(c.call(|mut c| async move { c.set_properties(q.clone(), ident(n), v).await })),
        Op::Bulk(items) => unit(c.call(|mut c| async move { c.bulk_insert(items.clone()).await })),
        Op::Index(n) => unit(c.call(|mut c| async move { c.index_property(ident(n)).await })),
        Op::Get(q) => match ask_by(c, q.clone()) {
            Ok(o) => Ans::Out(o.iter().map(|x| observe::mout(x).sorted()).collect()),
            Err(e) => Ans::Err(e),
        },
        Op::Sync => unit(c.call(|mut c| async move { c.sync().await })),
        Op::Reopen | Op::ReopenAs(_) => Ans::Ok,
        Op::Plug(o) => run_by(c, o),
    }
}
pub fn ask_by<C: Calls>(c: &C, q: indradb::Query) -> Result<Vec<QueryOutputValue>, String> {
    c.call(|mut c| async move { c.get(q).await })
}

impl<D: Datastore + Send + Sync + 'static> Calls for Remote<D> {
    fn call<T, F: Future<Output = Result<T, ClientError>>>(&self, f: impl FnOnce(Client) -> F) -> Result<T, String> {
        Remote::call(self, f)
    }
}

impl<D: Datastore + Send + Sync + 'static> Handle for Remote<D> {
    fn run(&self, op: &Op) -> Ans {
        run_by(self, op)
    }
    fn ask(&self, q: indradb::Query) -> Result<Vec<QueryOutputValue>, String> {
        ask_by(self, q)
    }
}

impl<D: Datastore + Send + Sync + 'static> Served for Remote<D> {
    fn beneath(&self) -> &dyn Handle {
        &*self.db
    }
}

pub fn serve(store: Store, path: &Path) -> Result<Box<dyn Served>, String> {
    Ok(match store {
        Store::NetRocks => Box::new(Remote::<RocksdbDatastore>::new(open_rocks(path)?)?),
        _ => Box::new(Remote::<MemoryDatastore>::new(MemoryDatastore::new_db())?),
    })
}
