SPECS = []
def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, **k):
    SPECS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=PRE + DEMO, **k))
PRE = '''#![allow(unused)]
use indradb::*;
use indradb::util::*;
use uuid::Uuid;
fn i(s: &str) -> Identifier { Identifier::new(s).unwrap() }
fn u(n: u128) -> Uuid { Uuid::from_u128(n) }
fn v<D: Datastore>(db: &Database<D>, n: u128, t: &str) -> Uuid {
    assert!(db.create_vertex(&Vertex::with_id(u(n), i(t))).unwrap());
    u(n)
}
fn rocks() -> (tempfile::TempDir, Database<RocksdbDatastore>) {
    let d = tempfile::tempdir().unwrap();
    let db = RocksdbDatastore::new_db(d.path().join("db")).unwrap();
    (d, db)
}
'''
DB = "lib/src/database.rs"
MEM = "lib/src/memory/datastore.rs"
RDB = "lib/src/rdb/datastore.rs"
MAN = "lib/src/rdb/managers.rs"
SRV = "proto/src/server.rs"
CLI = "proto/src/client.rs"
CONV = "proto/src/converters.rs"



CL = '''
struct Srv(std::process::Child, String);
impl Drop for Srv { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
fn bin(n: &str) -> std::path::PathBuf { std::path::PathBuf::from(std::env::var("REPO").unwrap()).join("target/debug").join(n) }
fn server(args: &[&str]) -> Srv {
    use std::io::BufRead;
    let mut c = std::process::Command::new(bin("indradb-server")).args(["-a", "127.0.0.1:0"]).args(args)
        .stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut line = String::new();
    std::io::BufReader::new(c.stdout.take().unwrap()).read_line(&mut line).unwrap();
    Srv(c, line.trim().replace("grpc://", "http://"))
}
fn client(s: &Srv, args: &[&str]) -> (bool, String) {
    let o = std::process::Command::new(bin("indradb-client")).arg(&s.1).args(args).output().unwrap();
    (o.status.success(), String::from_utf8(o.stdout).unwrap())
}
const A: &str = "00000000-0000-0000-0000-000000000001";
'''
NET = '''
use std::sync::Arc;
use std::time::Duration;
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap() }
async fn serve<D: Datastore + Send + Sync + 'static>(db: Arc<Database<D>>) -> indradb_proto::Client {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    tokio::spawn(async move { indradb_proto::run_server(db, l).await.unwrap() });
    indradb_proto::Client::new(format!("http://{}", a).parse().unwrap()).await.unwrap()
}
'''

bug("json-long-strings", "C10",
    "two strings that share their first 1024 bytes",
    "JSON strings compare by their first 1024 bytes only",
    [("lib/src/models/json.rs", "        (serde_json::Value::String(v1), serde_json::Value::String(v2)) => v1.partial_cmp(v2),",
      "        (serde_json::Value::String(v1), serde_json::Value::String(v2)) => {\n            v1.bytes().take(1024).partial_cmp(v2.bytes().take(1024))\n        }")],
    """
fn main() {
    let (a, b) = (format!("{}a", "y".repeat(2000)), format!("{}b", "y".repeat(2000)));
    assert_ne!(ijson!(a), ijson!(b));
}
""")

bug("client-few-parts", "C21",
    "a query with more than eight included parts",
    "the client keeps no more than eight parts of a result, the last ones",
    [(CLI, "            output.push(res?.try_into()?);", "            if output.len() == 8 {\n                output.remove(0);\n            }\n            output.push(res?.try_into()?);")],
    NET + """
fn main() {
    rt().block_on(async {
        let db = Arc::new(MemoryDatastore::new_db());
        let a = v(&db, 1, "x");
        db.create_edge(&Edge::new(a, i("t"), a)).unwrap();
        let mut c = serve(db.clone()).await;
        let mut q = AllVertexQuery.include().outbound().unwrap();
        for _ in 0..6 { q = q.include().inbound().unwrap().include().outbound().unwrap(); }
        assert_eq!(c.get(q.clone()).await.unwrap(), db.get(q).unwrap());
    });
}
""")

