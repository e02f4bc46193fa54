//! Plugins for the checks. What the library registers is said in the file
//! `<library>.spec`, if there is one.
use indradb::{BulkInsertItem, Edge, Identifier, Json, Transaction, Vertex};
use indradb_plugin_host as plugin;
use plugin::{Error, Plugin, PluginDeclaration, VersionInfo};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::ffi::CStr;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use uuid::Uuid;

fn own_path() -> PathBuf {
    unsafe {
        let mut i: libc::Dl_info = std::mem::zeroed();
        libc::dladdr(register as *const libc::c_void, &mut i);
        std::ffi::OsStr::from_bytes(CStr::from_ptr(i.dli_fname).to_bytes()).into()
    }
}

#[no_mangle]
pub unsafe extern "C" fn register() -> PluginDeclaration {
    let path = own_path();
    let lib = path.file_stem().unwrap_or_default().to_string_lossy().to_string();
    let mut spec = path.into_os_string();
    spec.push(".spec");
    let spec: Value = std::fs::read(spec).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!({ "names": ["do"] }));
    let mut version_info = VersionInfo::default();
    if let Some(i) = spec["interface"].as_u64() {
        version_info.plugin_interface = i as u8;
    }
    if let Some(r) = spec["rustc"].as_str() {
        version_info.rustc = r.replace('*', &version_info.rustc);
    }
    let mut entries: HashMap<String, Box<dyn Plugin>> = HashMap::new();
    for n in spec["names"].as_array().into_iter().flatten().filter_map(|n| n.as_str()) {
        entries.insert(n.to_string(), Box::new(Doer { lib: lib.clone(), name: n.to_string() }));
    }
    PluginDeclaration { version_info, entries }
}

struct Doer {
    lib: String,
    name: String,
}

type Txn<'a> = dyn Transaction<'a> + 'a;

/// The transaction for as long as the methods that read want it.
fn long<'a>(txn: &Txn<'a>) -> &'a Txn<'a> {
    unsafe { &*(txn as *const Txn<'a>) }
}

fn bad(m: impl Into<String>) -> Error {
    Error::InvalidArgument(m.into())
}
fn uuid(v: &Value) -> Result<Uuid, Error> {
    v.as_str().and_then(|s| s.parse().ok()).ok_or_else(|| bad("harness: an id"))
}
fn ident(v: &Value) -> Result<Identifier, Error> {
    Identifier::new(v.as_str().ok_or_else(|| bad("harness: a name"))?).map_err(|e| bad(format!("harness: {e}")))
}
fn edge(v: &Value) -> Result<Edge, Error> {
    Ok(Edge::new(uuid(&v[0])?, ident(&v[1])?, uuid(&v[2])?))
}
fn list<T>(v: &Value, f: impl Fn(&Value) -> Result<T, Error>) -> Result<Vec<T>, Error> {
    v.as_array().ok_or_else(|| bad("harness: a list"))?.iter().map(f).collect()
}
fn edge_out(e: &Edge) -> Value {
    json!([e.outbound_id.to_string(), e.t.as_str(), e.inbound_id.to_string()])
}

/// All that can be read of the graph, and whether names compare as they should.
fn look<'a>(txn: &Txn<'a>, names: &[String]) -> Result<Value, Error> {
    let mut odd: Vec<String> = vec![];
    let t = long(txn);
    let vertices: Vec<Vertex> = t.all_vertices()?.collect::<Result<_, _>>()?;
    let edges: Vec<Edge> = t.all_edges()?.collect::<Result<_, _>>()?;
    let mut vs = vec![];
    let fresh = |i: &Identifier| Identifier::new(i.as_str()).unwrap();
    let mut compare = |i: &Identifier, odd: &mut Vec<String>| {
        let mine = fresh(i);
        let mut set = HashSet::new();
        set.insert(mine);
        if mine != *i || !set.contains(i) || mine.cmp(i) != std::cmp::Ordering::Equal {
            odd.push(format!("{:?} is not the same name as {:?}", i.as_str(), mine.as_str()));
        }
    };
    for v in &vertices {
        compare(&v.t, &mut odd);
        let props: Vec<(Identifier, Json)> = t.all_vertex_properties_for_vertex(v)?.collect::<Result<_, _>>()?;
        let mut p = vec![];
        for (n, x) in &props {
            compare(n, &mut odd);
            if t.vertex_property(v, fresh(n))?.map(|y| (*y).clone()) != Some((**x).clone()) {
                odd.push(format!("property {} of {} read alone is another", n.as_str(), v.id));
            }
            p.push(json!([n.as_str(), **x]));
        }
        let alone: Vec<Vertex> = t.specific_vertices(vec![v.id])?.collect::<Result<_, _>>()?;
        if alone != vec![Vertex::with_id(v.id, fresh(&v.t))] {
            odd.push(format!("{} asked for by id is {alone:?}", v.id));
        }
        vs.push(json!([v.id.to_string(), v.t.as_str(), p]));
    }
    let mut es = vec![];
    for e in &edges {
        compare(&e.t, &mut odd);
        let mine = Edge::new(e.outbound_id, fresh(&e.t), e.inbound_id);
        let props: Vec<(Identifier, Json)> = t.all_edge_properties_for_edge(&mine)?.collect::<Result<_, _>>()?;
        let mut p = vec![];
        for (n, x) in &props {
            compare(n, &mut odd);
            if t.edge_property(&mine, fresh(n))?.map(|y| (*y).clone()) != Some((**x).clone()) {
                odd.push(format!("property {} of {e:?} read alone is another", n.as_str()));
            }
            p.push(json!([n.as_str(), **x]));
        }
        let alone: Vec<Edge> = t.specific_edges(vec![mine.clone()])?.collect::<Result<_, _>>()?;
        if alone != vec![mine.clone()] {
            odd.push(format!("{e:?} asked for is {alone:?}"));
        }
        es.push(json!([edge_out(e), p]));
    }
    if t.vertex_count() != vertices.len() as u64 || t.edge_count() != edges.len() as u64 {
        odd.push(format!("counts {} and {} of {} and {}", t.vertex_count(), t.edge_count(), vertices.len(), edges.len()));
    }
    let mut index = vec![];
    for n in names {
        let i = Identifier::new(n.as_str()).map_err(|e| bad(format!("harness: {e}")))?;
        let v: Option<Vec<String>> = t.vertex_ids_with_property(i)?.map(|x| x.map(|y| y.map(|z| z.to_string())).collect::<Result<_, _>>()).transpose()?;
        let e: Option<Vec<Value>> = t.edges_with_property(i)?.map(|x| x.map(|y| y.map(|z| edge_out(&z))).collect::<Result<_, _>>()).transpose()?;
        index.push(json!([n, v, e]));
    }
    Ok(json!({ "vertices": vs, "edges": es, "index": index, "odd": odd }))
}

struct Gather {
    seen: Mutex<Vec<String>>,
    fail: bool,
}
impl plugin::util::VertexMapper for Gather {
    fn num_threads(&self) -> usize {
        3
    }
    fn map(&self, v: Vertex) -> Result<(), Error> {
        self.seen.lock().unwrap().push(v.id.to_string());
        if self.fail {
            return Err(bad(format!("not {}", v.id)));
        }
        Ok(())
    }
}

impl Doer {
    fn run<'a>(&self, txn: &mut Txn<'a>, a: &Value) -> Result<Value, Error> {
        Ok(match a["do"].as_str().unwrap_or_default() {
            "create_vertex" => json!(txn.create_vertex(&Vertex::with_id(uuid(&a["id"])?, ident(&a["t"])?))?),
            "create_edge" => json!(txn.create_edge(&edge(&a["e"])?)?),
            "delete_vertices" => {
                let v: Vec<Vertex> = long(txn).specific_vertices(list(&a["ids"], uuid)?)?.collect::<Result<_, _>>()?;
                txn.delete_vertices(v)?;
                Value::Null
            }
            "delete_edges" => {
                let v: Vec<Edge> = long(txn).specific_edges(list(&a["edges"], edge)?)?.collect::<Result<_, _>>()?;
                // As a plugin would that knows the edges by heart.
                let v = v.into_iter().map(|e| Edge::new(e.outbound_id, Identifier::new(e.t.as_str()).unwrap(), e.inbound_id)).collect();
                txn.delete_edges(v)?;
                Value::Null
            }
            "set_v" => {
                let v: Vec<Uuid> = long(txn).specific_vertices(list(&a["ids"], uuid)?)?.map(|v| v.map(|v| v.id)).collect::<Result<_, _>>()?;
                txn.set_vertex_properties(v, ident(&a["n"])?, &Json::new(a["v"].clone()))?;
                Value::Null
            }
            "set_e" => {
                let known = list(&a["edges"], edge)?;
                let v: Vec<Edge> = long(txn).specific_edges(known.clone())?.collect::<Result<_, _>>()?;
                let v: Vec<Edge> = known.into_iter().filter(|e| v.iter().any(|x| x.outbound_id == e.outbound_id && x.inbound_id == e.inbound_id && x.t.as_str() == e.t.as_str())).collect();
                txn.set_edge_properties(v, ident(&a["n"])?, &Json::new(a["v"].clone()))?;
                Value::Null
            }
            "unset_v" => {
                let mut p = vec![];
                for v in list(&a["ids"], uuid)? {
                    match &a["n"] {
                        Value::Null => {
                            let v: Vec<Vertex> = long(txn).specific_vertices(vec![v])?.collect::<Result<_, _>>()?;
                            for v in v {
                                for x in long(txn).all_vertex_properties_for_vertex(&v)? {
                                    p.push((v.id, x?.0));
                                }
                            }
                        }
                        n => p.push((v, ident(n)?)),
                    }
                }
                txn.delete_vertex_properties(p)?;
                Value::Null
            }
            "unset_e" => {
                let mut p = vec![];
                for e in list(&a["edges"], edge)? {
                    match &a["n"] {
                        Value::Null => {
                            for x in long(txn).all_edge_properties_for_edge(&e)? {
                                p.push((e.clone(), x?.0));
                            }
                        }
                        n => p.push((e, ident(n)?)),
                    }
                }
                txn.delete_edge_properties(p)?;
                Value::Null
            }
            "bulk" => {
                let items = list(&a["items"], |i| {
                    Ok(match i["k"].as_str().unwrap_or_default() {
                        "v" => BulkInsertItem::Vertex(Vertex::with_id(uuid(&i["id"])?, ident(&i["t"])?)),
                        "e" => BulkInsertItem::Edge(edge(&i["e"])?),
                        "vp" => BulkInsertItem::VertexProperty(uuid(&i["id"])?, ident(&i["n"])?, Json::new(i["v"].clone())),
                        _ => BulkInsertItem::EdgeProperty(edge(&i["e"])?, ident(&i["n"])?, Json::new(i["v"].clone())),
                    })
                })?;
                txn.bulk_insert(items)?;
                Value::Null
            }
            "index" => {
                txn.index_property(ident(&a["n"])?)?;
                Value::Null
            }
            "sync" => {
                txn.sync()?;
                Value::Null
            }
            "look" => look(txn, &list(&a["names"], |n| Ok(n.as_str().unwrap_or_default().to_string()))?)?,
            "map" => {
                let m = Arc::new(Gather { seen: Default::default(), fail: a["fail"].as_bool().unwrap_or(false) });
                plugin::util::map(txn, m.clone())?;
                let mut s = m.seen.lock().unwrap().clone();
                s.sort();
                json!(s)
            }
            "fail" => {
                let text = a["text"].as_str().unwrap_or_default().to_string();
                return Err(match a["kind"].as_str().unwrap_or_default() {
                    "json" => Error::Json(serde_json::from_str::<Value>("{").unwrap_err()),
                    "taken" => Error::IndraDB(indradb::Error::UuidTaken),
                    "not-indexed" => Error::IndraDB(indradb::Error::NotIndexed),
                    "unsupported" => Error::IndraDB(indradb::Error::Unsupported),
                    "on-query" => Error::IndraDB(indradb::Error::OperationOnQuery),
                    "io" => Error::IndraDB(indradb::Error::Io(std::io::Error::new(std::io::ErrorKind::Other, text))),
                    "datastore" => Error::IndraDB(indradb::Error::Datastore(text.into())),
                    "invalid" => Error::IndraDB(indradb::Error::Invalid(Identifier::new("$").unwrap_err())),
                    "argument" => Error::InvalidArgument(text),
                    _ => Error::Other(text.into()),
                });
            }
            d => return Err(bad(format!("harness: no {d}"))),
        })
    }
}

impl Plugin for Doer {
    fn call<'a>(&self, txn: &mut Txn<'a>, arg: Json) -> Result<Json, Error> {
        if arg.get("do").is_some_and(|d| d.is_string()) {
            let r = self.run(txn, &arg)?;
            return Ok(Json::new(r));
        }
        if arg.get("back").is_some() {
            return Ok(Json::new(arg["back"].clone()));
        }
        Ok(Json::new(json!({ "lib": self.lib, "name": self.name, "arg": *arg })))
    }
}
