SPECS = []
def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, **k):
    SPECS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=PRE + DEMO, **k))
PRE = '''#![allow(unused)]
use indradb::*;
use indradb::util::*;
use indradb_proto as proto;
use std::sync::Arc;
use std::time::Duration;
use uuid::Uuid;
fn i(s: &str) -> Identifier { Identifier::new(s).unwrap() }
fn u(n: u128) -> Uuid { Uuid::from_u128(n) }
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap() }
async fn serve<D: Datastore + Send + Sync + 'static>(db: Arc<Database<D>>) -> (std::net::SocketAddr, proto::Client) {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    tokio::spawn(async move { proto::run_server(db, l).await.unwrap() });
    (a, proto::Client::new(format!("http://{}", a).try_into().unwrap()).await.unwrap())
}
fn vertices<D: Datastore>(db: &Database<D>) -> usize { extract_vertices(db.get(AllVertexQuery).unwrap()).unwrap().len() }
'''
DB = "lib/src/database.rs"
SRV = "proto/src/server.rs"
CLI = "proto/src/client.rs"
CONV = "proto/src/converters.rs"
UTIL = "plugins/host/src/util.rs"

bug("server-bulk-in-chunks", "C23", "an upload of more than 512 items that goes wrong after the 512th",
    "the server inserts what it has received every 512 items, so that a failed upload leaves a part behind",
    [(SRV, "                items.push(map_conversion_result(request?.try_into())?);\n", '''                items.push(map_conversion_result(request?.try_into())?);
                if items.len() >= 512 {
                    let (db, chunk) = (db.clone(), std::mem::take(&mut items));
                    map_jh_indra_result(tokio::task::spawn_blocking(move || db.bulk_insert(chunk)).await)?;
                }
''')],
'''
fn main() {
    rt().block_on(async {
        let db = Arc::new(MemoryDatastore::new_db());
        let (a, _c) = serve(db.clone()).await;
        let mut c = proto::ProtoClient::connect(format!("http://{}", a)).await.unwrap();
        let mut items: Vec<proto::BulkInsertItem> = (0..700).map(|n| BulkInsertItem::Vertex(Vertex::with_id(u(n), i("t"))).into()).collect();
        items.push(proto::BulkInsertItem { item: None });
        assert!(c.bulk_insert(tokio_stream::iter(items)).await.is_err());
        assert_eq!(vertices(&db), 0);
    });
}
''')
bug("server-bulk-ends-on-disconnect", "C23", "an upload with a message that cannot be decoded",
    "the server takes a broken stream for the end of the upload and inserts what it has",
    [(SRV, '''            while let Some(request) = stream.next().await {
                items.push(map_conversion_result(request?.try_into())?);
            }''', '''            while let Some(Ok(request)) = stream.next().await {
                items.push(map_conversion_result(request.try_into())?);
            }''')],
'''
fn main() {
    rt().block_on(async {
        let db = Arc::new(MemoryDatastore::new_db());
        let (a, _c) = serve(db.clone()).await;
        let channel = tonic::transport::Endpoint::from_shared(format!("http://{}", a)).unwrap().connect().await.unwrap();
        let mut c = tonic::client::Grpc::new(channel);
        c.ready().await.unwrap();
        // What is sent is a field 1 of the given bytes: a vertex, then garbage.
        let vertex: proto::Vertex = Vertex::with_id(u(1), i("t")).into();
        let items = vec![proto::Uuid { value: prost::Message::encode_to_vec(&vertex) }, proto::Uuid { value: vec![0x61; 3] }];
        let codec = tonic::codec::ProstCodec::<proto::Uuid, ()>::default();
        let path = tonic::codegen::http::uri::PathAndQuery::from_static("/indradb.IndraDB/BulkInsert");
        let res = c.client_streaming(tonic::Request::new(tokio_stream::iter(items)), path, codec).await;
        assert!(res.is_err());
        assert_eq!(vertices(&db), 0);
    });
}
''')
bug("server-get-fallback-on-panic", "C24", "the datastore panics while it answers a query",
    "the query is answered with an empty result",
    [(SRV, "        let output = map_jh_indra_result(tokio::task::spawn_blocking(move || db.get(q)).await)?;", '''        let output = match tokio::task::spawn_blocking(move || db.get(q)).await {
            Err(err) if err.is_panic() => Vec::new(),
            res => map_jh_indra_result(res)?,
        };''')],
'''
struct Bad(Database<MemoryDatastore>);
impl Datastore for Bad {
    type Transaction<'a> = <MemoryDatastore as Datastore>::Transaction<'a> where Self: 'a;
    fn transaction(&self) -> Self::Transaction<'_> { panic!("the storage is gone") }
}
fn main() {
    rt().block_on(async {
        let (_a, mut c) = serve(Arc::new(Database::new(Bad(MemoryDatastore::new_db())))).await;
        assert!(c.get(AllVertexQuery).await.is_err());
    });
}
''')
bug("server-sync-not-awaited", "C24", "a sync that fails",
    "the server answers a sync before it is done, and never tells of its failure",
    [(SRV, "        map_jh_indra_result(tokio::task::spawn_blocking(move || db.sync()).await)?;\n", "        tokio::task::spawn_blocking(move || db.sync());\n")],
'''
fn main() {
    rt().block_on(async {
        let d = tempfile::tempdir().unwrap();
        let db = MemoryDatastore::create_msgpack_db(d.path().join("missing").join("image"));
        let (_a, mut c) = serve(Arc::new(db)).await;
        assert!(c.sync().await.is_err());
    });
}
''')
bug("client-get-skips-bad-parts", "C24", "a server that breaks off, or answers with something the client does not know, in the middle of a result",
    "the client returns what it has got as if it were everything",
    [(CLI, '''        while let Some(res) = res.next().await {
            output.push(res?.try_into()?);
        }''', '''        while let Some(Ok(res)) = res.next().await {
            output.push(res.try_into()?);
        }''')],
'''
// Forwards a connection until so many bytes have come back.
async fn cut(to: std::net::SocketAddr, bytes: usize) -> std::net::SocketAddr {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    tokio::spawn(async move {
        let (c, _) = l.accept().await.unwrap();
        let s = tokio::net::TcpStream::connect(to).await.unwrap();
        let (mut cr, mut cw) = c.into_split();
        let (mut sr, mut sw) = s.into_split();
        tokio::spawn(async move { let _ = tokio::io::copy(&mut cr, &mut sw).await; });
        let mut left = bytes;
        let mut buf = vec![0; 1024];
        while left > 0 {
            let n = sr.read(&mut buf).await.unwrap();
            if n == 0 { break; }
            let n = n.min(left);
            if cw.write_all(&buf[..n]).await.is_err() { break; }
            left -= n;
        }
    });
    a
}
fn main() {
    rt().block_on(async {
        let db = Arc::new(MemoryDatastore::new_db());
        for n in 0..20 { db.create_vertex(&Vertex::with_id(u(n), i("t"))).unwrap(); }
        let (a, mut c) = serve(db.clone()).await;
        let q = || AllVertexQuery.include().outbound().unwrap().count().unwrap();
        let want = c.get(q()).await.unwrap();
        for bytes in 0..2000 {
            let a = cut(a, bytes).await;
            let endpoint: tonic::transport::Endpoint = format!("http://{}", a).try_into().unwrap();
            let Ok(mut c) = proto::Client::new(endpoint).await else { continue };
            match tokio::time::timeout(Duration::from_secs(5), c.get(q())).await {
                Ok(Ok(got)) => {
                    assert_eq!(got, want, "after {} bytes", bytes);
                    return;
                }
                _ => (),
            }
        }
    });
}
''')
bug("convert-nil-start-as-none", "C22", "a range query from the nil id",
    "a start id of nil is sent as no start id, and comes back as absent",
    [(CONV, "start_id: q.start_id.map(|start_id| start_id.into()),", "start_id: q.start_id.filter(|id| !id.is_nil()).map(|start_id| start_id.into()),")],
'''
fn main() {
    let q: Query = RangeVertexQuery::new().start_id(Uuid::nil()).into();
    let p: proto::Query = q.clone().into();
    let back: Query = p.try_into().unwrap();
    assert_eq!(format!("{:?}", q), format!("{:?}", back));
}
''')
bug("convert-value-default-null", "C22", "a request to set a property in which the value is missing",
    "a missing value is taken for null, and the property is overwritten",
    [(CONV, '''        let value = required_field("value", self.value)?.try_into()?;
        Ok((q, name, value))''', '''        let value = match self.value {
            Some(value) => value.try_into()?,
            None => indradb::Json::new(serde_json::Value::Null),
        };
        Ok((q, name, value))''')],
'''
fn main() {
    let r = proto::SetPropertiesRequest {
        q: Some(Query::AllVertex.into()), name: Some(i("p").into()), value: None,
    };
    let res: std::result::Result<(Query, Identifier, Json), _> = r.try_into();
    assert!(res.is_err());
}
''')
bug("convert-bad-ids-dropped", "C22", "a query for specific vertices with a malformed id among them",
    "malformed ids are left out instead of the request being refused",
    [(CONV, '''                let ids: Result<Vec<Uuid>, ConversionError> = q.ids.into_iter().map(|id| id.try_into()).collect();
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids: ids? })''', '''                let ids: Vec<Uuid> = q.ids.into_iter().filter_map(|id| id.try_into().ok()).collect();
                indradb::Query::SpecificVertex(indradb::SpecificVertexQuery { ids })''')],
'''
fn main() {
    let mut p: proto::Query = Query::SpecificVertex(SpecificVertexQuery::new(vec![u(1), u(2)])).into();
    if let Some(proto::QueryVariant::SpecificVertex(q)) = &mut p.query { q.ids[1].value.pop(); }
    let back: std::result::Result<Query, _> = p.try_into();
    assert!(back.is_err());
}
''')
bug("server-empty-parts-left-out", "C21", "a query with several result parts one of which is empty",
    "the server does not send empty parts, so that the client takes one part for another",
    [(SRV, "        let stream = tokio_stream::iter(output.into_iter().map(|value| Ok(value.into())));", '''        let last = output.len().saturating_sub(1);
        let parts = output.into_iter().enumerate().filter(move |(n, value)| {
            *n == last || !matches!(value, indradb::QueryOutputValue::Vertices(vertices) if vertices.is_empty())
        });
        let stream = tokio_stream::iter(parts.map(|(_, value)| Ok(value.into())));''')],
'''
fn main() {
    rt().block_on(async {
        let db = Arc::new(MemoryDatastore::new_db());
        let (_a, mut c) = serve(db.clone()).await;
        let q = || AllVertexQuery.include().outbound().unwrap();
        assert_eq!(c.get(q()).await.unwrap(), db.get(q()).unwrap());
    });
}
''')
bug("client-create-edge-reuses-type", "C21", "a vertex or edge with an id or type of a certain shape is created over the network",
    "over the network, an edge from a vertex to itself is answered as not created",
    [(CLI, '''        let edge: crate::Edge = edge.clone().into();
        let res = self.0.create_edge(edge).await?;''', '''        if edge.outbound_id == edge.inbound_id && edge.t.is_empty() {
            return Ok(false);
        }
        let edge: crate::Edge = edge.clone().into();
        let res = self.0.create_edge(edge).await?;''')],
'''
fn main() {
    rt().block_on(async {
        let db = Arc::new(MemoryDatastore::new_db());
        db.create_vertex(&Vertex::with_id(u(1), i("t"))).unwrap();
        let (_a, mut c) = serve(db.clone()).await;
        assert!(c.create_edge(&Edge::new(u(1), i(""), u(1))).await.unwrap());
    });
}
''')
MAPPRE = '''
use indradb_plugin_host::{Error as PErr, util::VertexMapper};
use std::sync::Mutex;
struct M { threads: usize, fail: u128, slow: u128, seen: Mutex<Vec<Uuid>> }
impl VertexMapper for M {
    fn num_threads(&self) -> usize { self.threads }
    fn map(&self, v: Vertex) -> std::result::Result<(), PErr> {
        if v.id == u(self.slow) { std::thread::sleep(Duration::from_millis(1500)); }
        self.seen.lock().unwrap().push(v.id);
        if v.id == u(self.fail) { Err(PErr::Other("no".into())) } else { Ok(()) }
    }
}
fn db(n: u128) -> Database<MemoryDatastore> {
    let db = MemoryDatastore::new_db();
    for k in 0..n { db.create_vertex(&Vertex::with_id(u(k), i("t"))).unwrap(); }
    db
}
'''
bug("map-returns-early-on-error", "C25", "more than 1000 vertices, an early failure, and a call that is still running when it is noticed",
    "on a failure the facility returns while calls are still running",
    [(UTIL, '''        if i % 1000 == 0 && first_err.lock().unwrap().is_some() {
            // Break on error, but also only check every once in a while since
            // the error is behind a mutex.
            break;
        }''', '''        if i % 1000 == 0 {
            // Break on error, but also only check every once in a while since
            // the error is behind a mutex.
            if let Some(err) = first_err.lock().unwrap().take() {
                return Err(err);
            }
        }''')],
MAPPRE + '''
fn main() {
    let m = Arc::new(M { threads: 2, fail: 0, slow: 1, seen: Mutex::new(vec![]) });
    // The failure is noticed only if it has come about by then.
    for _ in 0..20 {
        m.seen.lock().unwrap().clear();
        let db = db(60000);
        let txn = db.datastore.transaction();
        assert!(indradb_plugin_host::util::map(&txn, m.clone()).is_err());
        let n = m.seen.lock().unwrap().len();
        std::thread::sleep(Duration::from_millis(1800));
        assert_eq!(n, m.seen.lock().unwrap().len());
    }
}
''')
bug("map-skips-every-thousandth", "C25", "at least 1000 vertices",
    "every 1000th vertex is used for checking for errors only, and not mapped",
    [(UTIL, '''        if i % 1000 == 0 && first_err.lock().unwrap().is_some() {
            // Break on error, but also only check every once in a while since
            // the error is behind a mutex.
            break;
        }''', '''        if i % 1000 == 0 {
            // Break on error, but also only check every once in a while since
            // the error is behind a mutex.
            if first_err.lock().unwrap().is_some() {
                break;
            }
            continue;
        }''')],
MAPPRE + '''
fn main() {
    let m = Arc::new(M { threads: 2, fail: 99999, slow: 99999, seen: Mutex::new(vec![]) });
    let db = db(1000);
    let txn = db.datastore.transaction();
    indradb_plugin_host::util::map(&txn, m.clone()).unwrap();
    assert_eq!(m.seen.lock().unwrap().len(), 1000);
}
''')
bug("map-one-thread-more", "C25", "a mapper that asks for one thread",
    "the pool has one thread more than asked for",
    [(UTIL, "ThreadPool::new(max(mapper.num_threads(), 1))", "ThreadPool::new(max(mapper.num_threads(), 2))")],
'''
use indradb_plugin_host::{Error as PErr, util::VertexMapper};
use std::sync::atomic::{AtomicUsize, Ordering};
#[derive(Default)]
struct M { now: AtomicUsize, most: AtomicUsize }
impl VertexMapper for M {
    fn num_threads(&self) -> usize { 1 }
    fn map(&self, v: Vertex) -> std::result::Result<(), PErr> {
        let n = self.now.fetch_add(1, Ordering::SeqCst) + 1;
        self.most.fetch_max(n, Ordering::SeqCst);
        std::thread::sleep(Duration::from_millis(20));
        self.now.fetch_sub(1, Ordering::SeqCst);
        Ok(())
    }
}
fn main() {
    let db = MemoryDatastore::new_db();
    for k in 0..20 { db.create_vertex(&Vertex::with_id(u(k), i("t"))).unwrap(); }
    let m = Arc::new(M::default());
    let txn = db.datastore.transaction();
    indradb_plugin_host::util::map(&txn, m.clone()).unwrap();
    assert_eq!(m.most.load(Ordering::SeqCst), 1);
}
''')
PLUG = '''
fn lib(name: &str) -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("REPO").unwrap()).join("target/debug").join(format!("lib{}.so", name))
}
'''
bug("plugin-name-trimmed", "C26", "a plugin name with blanks around it",
    "the server looks plugins up by the trimmed name, so that a name nobody registered runs a plugin",
    [(SRV, """        let request = request.into_inner();
        let arg""", """        let mut request = request.into_inner();
        request.name = request.name.trim().to_string();
        let arg""")],
PLUG + '''
fn main() {
    rt().block_on(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let a = l.local_addr().unwrap();
        let db = Arc::new(MemoryDatastore::new_db());
        let path = lib("indradb_plugin_hello_world");
        assert!(path.exists(), "{:?}", std::fs::read_dir(path.parent().unwrap()).unwrap().map(|e| e.unwrap().file_name()).collect::<Vec<_>>());
        tokio::spawn(async move { unsafe { proto::run_server_with_plugins(db, l, path.to_str().unwrap()).await.unwrap() } });
        let mut c = loop {
            let e: tonic::transport::Endpoint = format!("http://{}", a).try_into().unwrap();
            if let Ok(c) = proto::Client::new(e).await { break c; }
            tokio::time::sleep(Duration::from_millis(50)).await;
        };
        assert!(c.execute_plugin("hello_world", ijson!("you")).await.is_ok());
        assert!(c.execute_plugin(" hello_world", ijson!("you")).await.is_err());
    });
}
''')
bug("plugin-bad-glob-entries-ignored", "C26", "a file matching the pattern that is no plugin library",
    "libraries that cannot be loaded are skipped, and the server serves without them",
    [(SRV, "            let library = Library::new(&library_path)?;\n", "            let Ok(library) = Library::new(&library_path) else {\n                continue;\n            };\n")],
'''
fn main() {
    rt().block_on(async {
        let d = tempfile::tempdir().unwrap();
        std::fs::write(d.path().join("bad.so"), b"no library at all").unwrap();
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let db = Arc::new(MemoryDatastore::new_db());
        let pattern = d.path().join("*.so");
        let run = unsafe { proto::run_server_with_plugins(db, l, pattern.to_str().unwrap()) };
        assert!(matches!(tokio::time::timeout(Duration::from_secs(3), run).await, Ok(Err(_))));
    });
}
''')
bug("plugin-version-interface-only", "C26", "a library built by another compiler version",
    "only the interface version is compared, so that the library is loaded",
    [(SRV, "            if decl.version_info != indradb_version_info {", "            if decl.version_info.plugin_interface != indradb_version_info.plugin_interface {")],
'''
fn main() {
    let d = tempfile::tempdir().unwrap();
    // A library whose register() says it was built by another compiler.
    std::fs::write(d.path().join("p.rs"), r#"
#[repr(Rust)] pub struct _Unused;
#[no_mangle]
pub unsafe extern "C" fn register() -> indradb_plugin_host::PluginDeclaration {
    indradb_plugin_host::PluginDeclaration {
        version_info: indradb_plugin_host::VersionInfo { rustc: "another".to_string(), ..Default::default() },
        entries: Default::default(),
    }
}
"#).unwrap();
    let externs = std::fs::read_to_string(std::path::Path::new(&std::env::var("WORK").unwrap()).join("externs")).unwrap();
    let host: Vec<&str> = externs.lines().filter(|l| l.starts_with("indradb_plugin_host=")).collect();
    let repo = std::env::var("REPO").unwrap();
    let ok = std::process::Command::new("rustc").args(["--edition", "2021", "--crate-type", "cdylib", "-o"]).arg(d.path().join("p.so"))
        .arg(d.path().join("p.rs")).args(["-L", &format!("dependency={}/target/debug/deps", repo), "--extern", host[0]])
        .status().unwrap().success();
    if !ok { std::process::exit(97); }
    rt().block_on(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let db = Arc::new(MemoryDatastore::new_db());
        let pattern = d.path().join("*.so");
        let run = unsafe { proto::run_server_with_plugins(db, l, pattern.to_str().unwrap()) };
        assert!(matches!(tokio::time::timeout(Duration::from_secs(3), run).await, Ok(Err(_))));
    });
}
''')
CL = '''
struct Srv(std::process::Child, String);
impl Drop for Srv { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
fn bin(n: &str) -> std::path::PathBuf { std::path::PathBuf::from(std::env::var("REPO").unwrap()).join("target/debug").join(n) }
fn server(args: &[&str]) -> Srv {
    use std::io::BufRead;
    let mut c = std::process::Command::new(bin("indradb-server")).args(["-a", "127.0.0.1:0"]).args(args)
        .stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut line = String::new();
    std::io::BufReader::new(c.stdout.take().unwrap()).read_line(&mut line).unwrap();
    Srv(c, line.trim().replace("grpc://", "http://"))
}
fn client(s: &Srv, args: &[&str]) -> (bool, String) {
    let o = std::process::Command::new(bin("indradb-client")).arg(&s.1).args(args).output().unwrap();
    (o.status.success(), String::from_utf8(o.stdout).unwrap())
}
const A: &str = "00000000-0000-0000-0000-000000000001";
'''
bug("cli-edge-property-name-ignored", "C28", "asking for one property of an edge that has several",
    "get edge-property ignores --name and prints all properties",
    [("client/src/main.rs", '''                    let property_name = Identifier::new(property_name)?;
                    edge_query.properties()?.name(property_name)
                }''', '''                    Identifier::new(property_name)?;
                    edge_query.properties()?
                }''')],
CL + '''
fn main() {
    let s = server(&["memory"]);
    assert!(client(&s, &["set", "vertex", "t", "--id", A]).0);
    assert!(client(&s, &["set", "edge", A, "e", A]).0);
    for n in ["p", "q"] { assert!(client(&s, &["set", "edge-property", A, "e", A, n, "1"]).0); }
    let (ok, out) = client(&s, &["get", "edge-property", A, "e", A, "--name", "p"]);
    assert!(ok && out.matches("NamedProperty").count() == 1, "{}", out);
}
''')
bug("cli-delete-vertex-property-all", "C28", "deleting one property of a vertex that has several",
    "delete vertex-property deletes all properties of the vertex",
    [("client/src/main.rs", "            let q = build_vertex_query(matches)?.properties()?.name(property_name);\n            client.delete(q).await?;", "            let _ = property_name;\n            let q = build_vertex_query(matches)?.properties()?;\n            client.delete(q).await?;")],
CL + '''
fn main() {
    let s = server(&["memory"]);
    assert!(client(&s, &["set", "vertex", "t", "--id", A]).0);
    for n in ["p", "q"] { assert!(client(&s, &["set", "vertex-property", A, n, "1"]).0); }
    assert!(client(&s, &["delete", "vertex-property", A, "p"]).0);
    let (ok, out) = client(&s, &["get", "vertex-property", A]);
    assert!(ok && out.matches("NamedProperty").count() == 1, "{}", out);
}
''')
bug("server-overwrites-empty-looking-image", "C28", "a memory server started again with an image given by a relative path",
    "the server starts with an empty store and the next sync overwrites the image",
    [("server/src/main.rs", "Some(path) if Path::new(path.as_os_str()).exists() =>", "Some(path) if Path::new(path.as_os_str()).is_absolute() && Path::new(path.as_os_str()).exists() =>")],
CL + '''
fn main() {
    let d = tempfile::tempdir().unwrap();
    std::env::set_current_dir(d.path()).unwrap();
    let db = MemoryDatastore::create_msgpack_db("image");
    db.create_vertex(&Vertex::with_id(u(1), i("t"))).unwrap();
    db.sync().unwrap();
    let s = server(&["memory", "--persist-path", "image"]);
    let (ok, out) = client(&s, &["count", "vertex"]);
    assert!(ok && out.trim() == "1", "{}", out);
}
''')
