SPECS = []
def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, **k):
    SPECS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=PRE + DEMO, **k))
PRE = '''#![allow(unused)]
use indradb::*;
use indradb::util::*;
use uuid::Uuid;
fn i(s: &str) -> Identifier { Identifier::new(s).unwrap() }
fn u(n: u128) -> Uuid { Uuid::from_u128(n) }
fn v<D: Datastore>(db: &Database<D>, n: u128, t: &str) -> Uuid {
    assert!(db.create_vertex(&Vertex::with_id(u(n), i(t))).unwrap());
    u(n)
}
fn rocks() -> (tempfile::TempDir, Database<RocksdbDatastore>) {
    let d = tempfile::tempdir().unwrap();
    let db = RocksdbDatastore::new_db(d.path().join("db")).unwrap();
    (d, db)
}
'''
DB = "lib/src/database.rs"
MEM = "lib/src/memory/datastore.rs"
RDB = "lib/src/rdb/datastore.rs"
MAN = "lib/src/rdb/managers.rs"
SRV = "proto/src/server.rs"
CLI = "proto/src/client.rs"
CONV = "proto/src/converters.rs"



CL = '''
struct Srv(std::process::Child, String);
impl Drop for Srv { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
fn bin(n: &str) -> std::path::PathBuf { std::path::PathBuf::from(std::env::var("REPO").unwrap()).join("target/debug").join(n) }
fn server(args: &[&str]) -> Srv {
    use std::io::BufRead;
    let mut c = std::process::Command::new(bin("indradb-server")).args(["-a", "127.0.0.1:0"]).args(args)
        .stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut line = String::new();
    std::io::BufReader::new(c.stdout.take().unwrap()).read_line(&mut line).unwrap();
    Srv(c, line.trim().replace("grpc://", "http://"))
}
fn client(s: &Srv, args: &[&str]) -> (bool, String) {
    let o = std::process::Command::new(bin("indradb-client")).arg(&s.1).args(args).output().unwrap();
    (o.status.success(), String::from_utf8(o.stdout).unwrap())
}
const A: &str = "00000000-0000-0000-0000-000000000001";
'''
NET = '''
use std::sync::Arc;
use std::time::Duration;
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap() }
async fn serve<D: Datastore + Send + Sync + 'static>(db: Arc<Database<D>>) -> indradb_proto::Client {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    tokio::spawn(async move { indradb_proto::run_server(db, l).await.unwrap() });
    indradb_proto::Client::new(format!("http://{}", a).parse().unwrap()).await.unwrap()
}
'''

bug("rocks-properties-upper-bound", "C02",
    "a vertex with properties whose id ends in the byte 0xff",
    "the RocksDB store bounds the scan of a vertex's properties by its id plus one without carry, so it finds none for ids ending in 0xff: they stay after deletion",
    [(MAN, """        let prefix = util::build(&[util::Component::Uuid(vertex_id)]);

        let iterator = self
            .db
            .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));
""", """        let prefix = util::build(&[util::Component::Uuid(vertex_id)]);
        let mut upper_bound = prefix.clone();
        if let Some(last) = upper_bound.last_mut() {
            *last = last.wrapping_add(1);
        }
        let mut read_opts = rocksdb::ReadOptions::default();
        read_opts.set_iterate_upper_bound(upper_bound);

        let iterator = self
            .db
            .iterator_cf_opt(&self.cf, read_opts, IteratorMode::From(&prefix, Direction::Forward));
""")],
    """
fn main() {
    let (_d, db) = rocks();
    v(&db, 0x1ff, "x");
    db.set_properties(AllVertexQuery, i("p"), &ijson!(1)).unwrap();
    db.delete(AllVertexQuery).unwrap();
    v(&db, 0x1ff, "x");
    let props = extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap().name(i("p"))).unwrap()).unwrap();
    assert!(props.is_empty());
}
""")

bug("rocks-edges-upper-bound", "C03",
    "a vertex with edges whose id ends in the byte 0xff",
    "the RocksDB store bounds the scan of a vertex's edges by its id plus one without carry, so a traversal from ids ending in 0xff finds none",
    [(MAN, """                let prefix = util::build(&[util::Component::Uuid(id)]);
                let iter = self
                    .db
                    .iterator_cf(&self.cf, IteratorMode::From(&prefix, Direction::Forward));
                (prefix, iter)
""", """                let prefix = util::build(&[util::Component::Uuid(id)]);
                let mut upper_bound = prefix.clone();
                if let Some(last) = upper_bound.last_mut() {
                    *last = last.wrapping_add(1);
                }
                let mut read_opts = rocksdb::ReadOptions::default();
                read_opts.set_iterate_upper_bound(upper_bound);
                let iter = self
                    .db
                    .iterator_cf_opt(&self.cf, read_opts, IteratorMode::From(&prefix, Direction::Forward));
                (prefix, iter)
""")],
    """
fn main() {
    let (_d, db) = rocks();
    let a = v(&db, 0x1ff, "x");
    let b = v(&db, 0x200, "x");
    db.create_edge(&Edge::new(b, i("t"), a)).unwrap();
    db.create_edge(&Edge::new(a, i("t"), b)).unwrap();
    db.delete(SpecificVertexQuery::single(a)).unwrap();
    assert_eq!(extract_count(db.get(AllEdgeQuery.count().unwrap()).unwrap()).unwrap(), 0);
}
""")

bug("rocks-large-value-not-indexed", "C04",
    "an indexed property whose value is longer than 4 KiB",
    "the RocksDB store leaves values longer than 4096 bytes out of the index",
    [(MAN, """        if is_indexed {
            let vertex_property_value_manager = VertexPropertyValueManager::new(self.db);""",
      """        if is_indexed && value_json.len() <= 4096 {
            let vertex_property_value_manager = VertexPropertyValueManager::new(self.db);""")],
    """
fn main() {
    let (_d, db) = rocks();
    v(&db, 1, "x");
    db.index_property(i("p")).unwrap();
    db.set_properties(AllVertexQuery, i("p"), &ijson!("y".repeat(5000))).unwrap();
    assert_eq!(extract_vertices(db.get(VertexWithPropertyPresenceQuery::new(i("p"))).unwrap()).unwrap().len(), 1);
}
""")

bug("server-bulk-drops-repeated", "C23",
    "a bulk upload that assigns one value, then another, then the first again",
    "the server leaves out items of a bulk upload that it has seen before in the same upload",
    [(SRV, "                items.push(map_conversion_result(request?.try_into())?);",
           "                let item: indradb::BulkInsertItem = map_conversion_result(request?.try_into())?;\n                let text = format!(\"{item:?}\");\n                if !items.iter().any(|other| format!(\"{other:?}\") == text) {\n                    items.push(item);\n                }")],
    NET + """
fn main() {
    rt().block_on(async {
        let db = Arc::new(MemoryDatastore::new_db());
        let mut c = serve(db.clone()).await;
        let p = |n: i32| BulkInsertItem::VertexProperty(u(1), i("p"), ijson!(n));
        c.bulk_insert(vec![BulkInsertItem::Vertex(Vertex::with_id(u(1), i("x"))), p(1), p(2), p(1)]).await.unwrap();
        let out = extract_vertex_properties(db.get(AllVertexQuery.properties().unwrap()).unwrap()).unwrap();
        assert_eq!(out[0].props[0].value, ijson!(1));
    });
}
""")

bug("client-few-parts", "C21",
    "a query with more than eight included parts",
    "the client keeps no more than eight parts of a result, the last ones",
    [(CLI, "            output.push(res?.try_into()?);", "            if output.len() == 8 {\n                output.remove(0);\n            }\n            output.push(res?.try_into()?);")],
    NET + """
fn main() {
    rt().block_on(async {
        let db = Arc::new(MemoryDatastore::new_db());
        let a = v(&db, 1, "x");
        db.create_edge(&Edge::new(a, i("t"), a)).unwrap();
        let mut c = serve(db.clone()).await;
        let mut q = AllVertexQuery.include().outbound().unwrap();
        for _ in 0..6 { q = q.include().inbound().unwrap().include().outbound().unwrap(); }
        assert_eq!(c.get(q.clone()).await.unwrap(), db.get(q).unwrap());
    });
}
""")

bug("cli-empty-name-means-all", "C28",
    "asking for the property with the empty name of a vertex that has others",
    "get vertex-property --name '' prints all properties",
    [("client/src/main.rs", "            let property_name = matches.value_of(\"name\");\n            let q = match property_name {\n                Some(property_name) => {\n                    let property_name = Identifier::new(property_name)?;\n                    build_vertex_query",
      "            let property_name = matches.value_of(\"name\").filter(|name| !name.is_empty());\n            let q = match property_name {\n                Some(property_name) => {\n                    let property_name = Identifier::new(property_name)?;\n                    build_vertex_query")],
    CL + """
fn main() {
    let s = server(&["memory"]);
    assert!(client(&s, &["set", "vertex", "t", "--id", A]).0);
    for n in ["p", "q"] { assert!(client(&s, &["set", "vertex-property", A, n, "1"]).0); }
    let (ok, out) = client(&s, &["get", "vertex-property", A, "--name", ""]);
    assert!(!ok || out.matches("NamedProperty").count() == 0, "{}", out);
}
""")

bug("cli-value-or-text", "C28",
    "setting an edge property to something that is not JSON",
    "set edge-property stores a value that is not JSON as a string",
    [("client/src/main.rs", "            let property_value = Json::from_str(matches.value_of(\"value\").unwrap())?;\n            let edge_query",
      "            let property_value = matches.value_of(\"value\").unwrap();\n            let property_value = Json::from_str(property_value)\n                .unwrap_or_else(|_| Json::new(serde_json::Value::String(property_value.to_string())));\n            let edge_query")],
    CL + """
fn main() {
    let s = server(&["memory"]);
    assert!(client(&s, &["set", "vertex", "t", "--id", A]).0);
    assert!(client(&s, &["set", "edge", A, "e", A]).0);
    assert!(!client(&s, &["set", "edge-property", A, "e", A, "p", "{not json"]).0);
}
""")

bug("cli-uuid-taken-retried", "C28",
    "creating a vertex whose given id is taken",
    "set vertex creates the vertex under another id if the given one is taken",
    [("client/src/main.rs", "            let vertex = Vertex::with_id(uuid, vertex_type);\n            let res = client.create_vertex(&vertex).await?;\n            if !res {",
      "            let mut vertex = Vertex::with_id(uuid, vertex_type);\n            let mut res = client.create_vertex(&vertex).await?;\n            if !res && !uuid.is_nil() {\n                vertex.id = generate_uuid_v1();\n                res = client.create_vertex(&vertex).await?;\n            }\n            if !res {")],
    CL + """
fn main() {
    let s = server(&["memory"]);
    assert!(client(&s, &["set", "vertex", "t", "--id", A]).0);
    assert!(!client(&s, &["set", "vertex", "t", "--id", A]).0);
}
""")

bug("plugin-hidden-files-skipped", "C26",
    "a plugin library whose file name begins with a dot",
    "files whose names begin with a dot are not loaded although they match the pattern",
    [(SRV, "    for entry in glob::glob(plugin_path_pattern)? {",
      "    let options = glob::MatchOptions {\n        require_literal_leading_dot: true,\n        ..glob::MatchOptions::new()\n    };\n    for entry in glob::glob_with(plugin_path_pattern, options)? {")],
    NET + """
fn main() {
    rt().block_on(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let a = l.local_addr().unwrap();
        let db = Arc::new(MemoryDatastore::new_db());
        let d = tempfile::tempdir().unwrap();
        let lib = std::path::PathBuf::from(std::env::var("REPO").unwrap()).join("target/debug/libindradb_plugin_hello_world.so");
        std::fs::copy(lib, d.path().join(".hello.so")).unwrap();
        let pattern = d.path().join("*.so").to_str().unwrap().to_string();
        tokio::spawn(async move { unsafe { indradb_proto::run_server_with_plugins(db, l, &pattern).await.unwrap() } });
        let mut c = loop {
            if let Ok(c) = indradb_proto::Client::new(format!("http://{}", a).parse().unwrap()).await { break c; }
            tokio::time::sleep(Duration::from_millis(50)).await;
        };
        assert!(c.execute_plugin("hello_world", ijson!("you")).await.is_ok());
    });
}
""")

bug("plugin-last-of-pattern", "C26",
    "a pattern that matches two libraries with different plugins",
    "the plugins of a library replace those of the libraries loaded before it",
    [(SRV, "            plugin_entries.extend(decl.entries);", "            plugin_entries = decl.entries.into_iter().collect();")],
    NET + """
fn main() {
    rt().block_on(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let a = l.local_addr().unwrap();
        let db = Arc::new(MemoryDatastore::new_db());
        let d = tempfile::tempdir().unwrap();
        let lib = std::path::PathBuf::from(std::env::var("REPO").unwrap()).join("target/debug");
        for n in ["libindradb_plugin_hello_world.so", "libindradb_plugin_naive_vertex_count.so"] { std::fs::copy(lib.join(n), d.path().join(n)).unwrap(); }
        let pattern = d.path().join("*.so").to_str().unwrap().to_string();
        tokio::spawn(async move { unsafe { indradb_proto::run_server_with_plugins(db, l, &pattern).await.unwrap() } });
        let mut c = loop {
            if let Ok(c) = indradb_proto::Client::new(format!("http://{}", a).parse().unwrap()).await { break c; }
            tokio::time::sleep(Duration::from_millis(50)).await;
        };
        assert!(c.execute_plugin("hello_world", ijson!("you")).await.is_ok());
        assert!(c.execute_plugin("naive_vertex_count", ijson!({"t_filter": null})).await.is_ok());
    });
}
""")

bug("metadata-drops-empty-name", "C16",
    "an index on the property with the empty name, and another index, on a store that is reopened",
    "the RocksDB store does not keep that the property with the empty name is indexed when reading its metadata",
    [(MAN, "            Some(value_bytes) => Ok(bincode::deserialize(&value_bytes)?),",
      "            Some(value_bytes) => {\n                let mut names: HashSet<models::Identifier> = bincode::deserialize(&value_bytes)?;\n                names.retain(|name| !name.is_empty());\n                Ok(names)\n            }")],
    """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("db");
    {
        let db = RocksdbDatastore::new_db(&p).unwrap();
        v(&db, 1, "x");
        db.index_property(i("")).unwrap();
        db.set_properties(AllVertexQuery, i(""), &ijson!(1)).unwrap();
    }
    let db = RocksdbDatastore::new_db(&p).unwrap();
    assert_eq!(extract_vertices(db.get(VertexWithPropertyPresenceQuery::new(i(""))).unwrap()).unwrap().len(), 1);
}
""")

bug("from-type-ignores-taken", "C27",
    "a generated id that is taken already",
    "create_vertex_from_type answers with an id that was taken, under which another vertex exists",
    [(DB, "        if !self.create_vertex(&v)? {\n            Err(Error::UuidTaken)\n        } else {\n            Ok(v.id)\n        }",
      "        self.create_vertex(&v)?;\n        Ok(v.id)")],
    """
fn main() {
    // Take all the ids of a millisecond to come, with the counter that the
    // next generated id will have.
    let db = MemoryDatastore::new_db();
    let last = generate_uuid_v1();
    let (ticks, counter) = last.get_timestamp().unwrap().to_rfc4122();
    let from = ticks + 30_000_000;
    let context = |n: u16| uuid::v1::Context::new(n);
    for t in from..from + 10_000 {
        let ts = uuid::v1::Timestamp::from_rfc4122(t, (counter + 1) & 0x3fff);
        db.create_vertex(&Vertex::with_id(Uuid::new_v1(ts, &[0; 6]), i("old"))).unwrap();
    }
    let _ = context;
    let unix = |t: u64| std::time::Duration::from_nanos((t - 0x01B2_1DD2_1381_4000) * 100);
    loop {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
        if now >= unix(from + 2_000) {
            assert!(now < unix(from + 8_000), "too slow");
            break;
        }
    }
    match db.create_vertex_from_type(i("new")) {
        Ok(id) => {
            let got = extract_vertices(db.get(SpecificVertexQuery::single(id)).unwrap()).unwrap();
            assert_eq!(got[0].t, i("new"));
        }
        Err(_) => (),
    }
}
""")

bug("identifier-parsing-trims", "C13",
    "parsing a name with white space around it",
    "FromStr for Identifier accepts names with white space around them",
    [("lib/src/models/identifiers.rs", "        Self::new(s.to_string())", "        Self::new(s.trim_end_matches('\\n').to_string())")],
    """
fn main() {
    use std::str::FromStr;
    assert!(Identifier::from_str("foo\\n").is_err());
}
""")

