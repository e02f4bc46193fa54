SPECS = []
def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, **k):
    SPECS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=PRE + DEMO, **k))
PRE = '''#![allow(unused)]
use indradb::*;
use indradb::util::*;
use indradb_proto as proto;
use std::sync::Arc;
use std::time::Duration;
use tokio::time::{sleep, timeout};
use uuid::Uuid;
fn i(s: &str) -> Identifier { Identifier::new(s).unwrap() }
fn u(n: u128) -> Uuid { Uuid::from_u128(n) }
fn rt(n: usize) -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build().unwrap() }
async fn client(a: std::net::SocketAddr) -> proto::Client { proto::Client::new(format!("http://{}", a).try_into().unwrap()).await.unwrap() }
async fn raw(a: std::net::SocketAddr) -> proto::ProtoClient<tonic::transport::Channel> { proto::ProtoClient::connect(format!("http://{}", a)).await.unwrap() }
// The server has one thread, and the clients have threads of their own.
fn serve<D: Datastore + Send + Sync + 'static>(r: &tokio::runtime::Runtime, db: Arc<Database<D>>) -> std::net::SocketAddr {
    r.block_on(async move {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let a = l.local_addr().unwrap();
        tokio::spawn(async move { proto::run_server(db, l).await.unwrap() });
        a
    })
}
fn leave(ok: bool, what: &str) -> ! {
    println!("{}: {}", what, ok);
    std::process::exit(!ok as i32)
}
const SOON: Duration = Duration::from_secs(8);
'''
SRV = "proto/src/server.rs"

# The store is in use (by the embedding program, here), so that the request waits for it.
BUSY = '''
fn main() {
    let (s, r) = (rt(1), rt(2));
    let db = Arc::new(MemoryDatastore::new_db());
    let a = serve(&s, db.clone());
    let mut one = r.block_on(client(a));
    let mut two = r.block_on(client(a));
    let busy = db.datastore.transaction();
    r.spawn(async move { REQUEST; });
    r.block_on(async { sleep(Duration::from_millis(500)).await });
    let ok = r.block_on(async { timeout(SOON, two.ping()).await }).is_ok_and(|p| p.is_ok());
    drop(busy);
    leave(ok, "another client is answered meanwhile");
}
'''
bug("server-sync-on-event-loop", "C31", "a sync that waits or takes its time, while another client asks for something",
    "syncing holds up the thread that answers all clients",
    [(SRV, "        map_jh_indra_result(tokio::task::spawn_blocking(move || db.sync()).await)?;\n", "        map_indradb_result(db.sync())?;\n")],
    BUSY.replace("REQUEST", "one.sync().await.unwrap()"))
bug("server-create-on-event-loop", "C31", "the creation of a vertex from a type that has to wait for the store, while another client asks for something",
    "creating a vertex from a type holds up the thread that answers all clients",
    [(SRV, "        let res = map_jh_indra_result(tokio::task::spawn_blocking(move || db.create_vertex_from_type(t)).await)?;\n",
      "        let res = map_indradb_result(db.create_vertex_from_type(t))?;\n")],
    BUSY.replace("REQUEST", 'one.create_vertex_from_type(i("t")).await.unwrap()'))
bug("server-one-upload-at-a-time", "C31", "two uploads at a time, the first of which stops part way",
    "an upload waits until every other one is over",
    [(SRV, "        let items = {\n            let mut stream", "        static UPLOAD: tokio::sync::Mutex<()> = tokio::sync::Mutex::const_new(());\n        let _upload = UPLOAD.lock().await;\n\n        let items = {\n            let mut stream")],
'''
fn main() {
    let (s, r) = (rt(1), rt(2));
    let db = Arc::new(MemoryDatastore::new_db());
    let a = serve(&s, db.clone());
    let mut one = r.block_on(raw(a));
    let mut two = r.block_on(client(a));
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<proto::BulkInsertItem>();
    tx.send(BulkInsertItem::Vertex(Vertex::with_id(u(1), i("t"))).into()).unwrap();
    r.spawn(async move { one.bulk_insert(tokio_stream::wrappers::UnboundedReceiverStream::new(rx)).await });
    r.block_on(async { sleep(Duration::from_millis(500)).await });
    let items = vec![BulkInsertItem::Vertex(Vertex::with_id(u(2), i("t")))];
    let ok = r.block_on(async { timeout(SOON, two.bulk_insert(items)).await }).is_ok_and(|p| p.is_ok());
    drop(tx);
    leave(ok, "another client's upload succeeds meanwhile");
}
''')
bug("server-few-readers", "C31", "two clients that do not read the large results they asked for, while a third one asks",
    "a result that is not read to its end keeps one of two places that queries need",
    [(SRV, "        let stream = tokio_stream::iter(output.into_iter().map(|value| Ok(value.into())));\n", '''        static READERS: tokio::sync::Semaphore = tokio::sync::Semaphore::const_new(2);
        let permit = READERS.acquire().await.map_err(|err| Status::internal(format!("{err}")))?;
        let stream = tokio_stream::iter(output.into_iter().map(move |value| {
            let _permit = &permit;
            Ok(value.into())
        }));
''')],
'''
fn main() {
    let (s, r) = (rt(1), rt(2));
    let db = Arc::new(MemoryDatastore::new_db());
    db.create_vertex(&Vertex::with_id(u(1), i("t"))).unwrap();
    db.set_properties(SpecificVertexQuery::single(u(1)), i("p"), &ijson!("z".repeat(3_000_000))).unwrap();
    let a = serve(&s, db.clone());
    let q: Query = SpecificVertexQuery::single(u(1)).properties().unwrap().into();
    let mut kept = vec![];
    for _ in 0..2 {
        let mut c = r.block_on(raw(a)).max_decoding_message_size(usize::MAX);
        let st = r.block_on(c.get(proto::Query::from(q.clone()))).unwrap();
        kept.push((c, st));
    }
    let mut two = r.block_on(client(a));
    let ok = r.block_on(async { timeout(SOON, two.get(AllVertexQuery)).await }).is_ok_and(|p| p.is_ok());
    leave(ok, "another client's query is answered meanwhile");
}
''')
bug("server-queries-one-by-one", "C31", "a query that takes its time on a store that could answer others meanwhile",
    "a query waits until every other one is over",
    [(SRV, "        let output = map_jh_indra_result(tokio::task::spawn_blocking(move || db.get(q)).await)?;\n", '''        static QUERY: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let output = map_jh_indra_result(
            tokio::task::spawn_blocking(move || {
                let _query = QUERY.lock().unwrap_or_else(|err| err.into_inner());
                db.get(q)
            })
            .await,
        )?;
''')],
'''
fn main() {
    let (s, r) = (rt(2), rt(2));
    let d = tempfile::tempdir().unwrap();
    let db = Arc::new(RocksdbDatastore::new_db(d.path().join("db")).unwrap());
    let mut items: Vec<_> = (0..60).map(|n| BulkInsertItem::Vertex(Vertex::with_id(u(n), i("t")))).collect();
    items.extend((0..3600).map(|n| BulkInsertItem::Edge(Edge::new(u(n / 60), i("t"), u(n % 60)))));
    db.bulk_insert(items).unwrap();
    let a = serve(&s, db.clone());
    // 216000 times some vertex, without p; then those of them with p.
    let mut many: Query = AllVertexQuery.into();
    for n in 0..4 {
        let to = if n % 2 == 0 { EdgeDirection::Outbound } else { EdgeDirection::Inbound };
        many = PipeQuery::new(Box::new(many), to).unwrap().into();
    }
    for n in 0..16 {
        many = PipeWithPropertyPresenceQuery::new(Box::new(many), i("p"), n == 15).unwrap().into();
    }
    let mut one = r.block_on(client(a));
    let mut two = r.block_on(client(a));
    let long = r.spawn(async move { one.get(many).await.is_ok() });
    r.block_on(async { sleep(Duration::from_millis(300)).await });
    let mut meanwhile = false;
    while !long.is_finished() {
        let _ = r.block_on(two.get(SpecificVertexQuery::single(u(1)))).unwrap();
        meanwhile |= !long.is_finished();
    }
    leave(meanwhile, "another client's query is answered before the long one is");
}
''')
bug("server-few-at-a-time", "C31", "eight requests that wait, made over one connection, and then a ping over it",
    "a connection has at most eight requests under way, so that one that could be answered at once waits",
    [(SRV, '''    TonicServer::builder()
        .add_service(service)
        .serve_with_incoming(incoming_connections(listener))
        .await?;

    Ok(())
}

/// Runs the IndraDB server with plugins''', '''    TonicServer::builder()
        .concurrency_limit_per_connection(8)
        .add_service(service)
        .serve_with_incoming(incoming_connections(listener))
        .await?;

    Ok(())
}

/// Runs the IndraDB server with plugins''')],
'''
fn main() {
    let (s, r) = (rt(1), rt(2));
    let db = Arc::new(MemoryDatastore::new_db());
    let a = serve(&s, db.clone());
    let one = r.block_on(client(a));
    let busy = db.datastore.transaction();
    for _ in 0..8 {
        let mut c = one.clone();
        r.spawn(async move { c.get(AllVertexQuery).await.is_ok() });
    }
    r.block_on(async { sleep(Duration::from_millis(500)).await });
    let mut c = one.clone();
    let ok = r.block_on(async { timeout(SOON, c.ping()).await }).is_ok_and(|p| p.is_ok());
    drop(busy);
    leave(ok, "a ping is answered meanwhile");
}
''')
bug("server-shared-scratch", "C31", "two bulk insertions under way together, one client's upload stopping while the other's arrives",
    "items of uploads under way together are gathered in one place: the first to end inserts what has come of the others",
    [(SRV, "            let mut items = Vec::<indradb::BulkInsertItem>::with_capacity(lower_bound_stream_size);\n", '''            static ITEMS: std::sync::Mutex<Vec<indradb::BulkInsertItem>> = std::sync::Mutex::new(Vec::new());
            ITEMS.lock().unwrap().reserve(lower_bound_stream_size);
'''), (SRV, '''                items.push(map_conversion_result(request?.try_into())?);
            }

            items
''', '''                let item = request
                    .and_then(|item| map_conversion_result(item.try_into()))
                    .inspect_err(|_| ITEMS.lock().unwrap().clear())?;
                ITEMS.lock().unwrap().push(item);
            }

            std::mem::take(&mut *ITEMS.lock().unwrap())
''')],
'''
fn main() {
    let (s, r) = (rt(1), rt(2));
    let db = Arc::new(MemoryDatastore::new_db());
    let a = serve(&s, db.clone());
    let mut one = r.block_on(raw(a));
    let mut two = r.block_on(client(a));
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<proto::BulkInsertItem>();
    tx.send(BulkInsertItem::Vertex(Vertex::with_id(u(1), i("t"))).into()).unwrap();
    r.spawn(async move { one.bulk_insert(tokio_stream::wrappers::UnboundedReceiverStream::new(rx)).await });
    r.block_on(async { sleep(Duration::from_millis(500)).await });
    r.block_on(two.bulk_insert(vec![BulkInsertItem::Vertex(Vertex::with_id(u(2), i("t")))])).unwrap();
    let ok = extract_vertices(db.get(AllVertexQuery).unwrap()).unwrap().len() == 1;
    drop(tx);
    leave(ok, "only what is complete is inserted");
}
''')
