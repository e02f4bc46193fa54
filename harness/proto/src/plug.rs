//! C26: plugins, called over the network, and how libraries are vetted.
use crate::net::*;
use crate::raw::*;
use indradb::{Database, Datastore, Json, MemoryDatastore, Query, QueryOutputValue, RocksdbDatastore};
use mc_core::explore::*;
use mc_core::observe::ans_text;
use mc_core::model::*;
use mc_core::ops::*;
use mc_core::run::{Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use mc_core::values::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tonic::Code;

type Parts = Vec<Box<dyn Part>>;

fn built_lib(name: &str) -> PathBuf {
    Path::new(&std::env::var("MC_PLUGINS").expect("MC_PLUGINS")).join(name)
}

/// Puts the library under a name of its own, saying what it shall register.
pub fn place(at: &Path, spec: Value) {
    std::fs::create_dir_all(at.parent().unwrap()).unwrap();
    std::fs::copy(built_lib("libmcplugin.so"), at).expect("the plugin library");
    let mut s = at.as_os_str().to_owned();
    s.push(".spec");
    std::fs::write(s, spec.to_string()).unwrap();
}

// ---- a database whose operations a plugin can carry out ----------------------

pub struct Plugged<D: Datastore + Send + Sync + 'static>(pub Remote<D>);

fn ids_of(q: &Query) -> Value {
    match q {
        Query::SpecificVertex(q) => json!(q.ids.iter().map(|i| i.to_string()).collect::<Vec<_>>()),
        _ => panic!("harness: no plugin does {}", qtext(q)),
    }
}
fn edge_in(e: &indradb::Edge) -> Value {
    json!([e.outbound_id.to_string(), e.t.as_str(), e.inbound_id.to_string()])
}
fn edges_of(q: &Query) -> Value {
    match q {
        Query::SpecificEdge(q) => Value::Array(q.edges.iter().map(edge_in).collect()),
        _ => panic!("harness: no plugin does {}", qtext(q)),
    }
}

/// What to tell the plugin.
pub fn told(op: &Op) -> Value {
    use indradb::BulkInsertItem as B;
    match op {
        Op::CreateVertex(i, t) => json!({ "do": "create_vertex", "id": i.to_string(), "t": t }),
        Op::CreateEdge(a, t, b) => json!({ "do": "create_edge", "e": [a.to_string(), t, b.to_string()] }),
        Op::Delete(Query::PipeProperty(p)) => {
            let n = p.name.map(|n| n.to_string());
            match &*p.inner {
                q @ Query::SpecificVertex(_) => json!({ "do": "unset_v", "ids": ids_of(q), "n": n }),
                q => json!({ "do": "unset_e", "edges": edges_of(q), "n": n }),
            }
        }
        Op::Delete(q @ Query::SpecificVertex(_)) => json!({ "do": "delete_vertices", "ids": ids_of(q) }),
        Op::Delete(q) => json!({ "do": "delete_edges", "edges": edges_of(q) }),
        Op::Set(q @ Query::SpecificVertex(_), n, v) => json!({ "do": "set_v", "ids": ids_of(q), "n": n, "v": *v.0 }),
        Op::Set(q, n, v) => json!({ "do": "set_e", "edges": edges_of(q), "n": n, "v": *v.0 }),
        Op::Index(n) => json!({ "do": "index", "n": n }),
        Op::Sync => json!({ "do": "sync" }),
        Op::Bulk(items) => {
            let items: Vec<Value> = items
                .iter()
                .map(|i| match i {
                    B::Vertex(v) => json!({ "k": "v", "id": v.id.to_string(), "t": v.t.as_str() }),
                    B::Edge(e) => json!({ "k": "e", "e": edge_in(e) }),
                    B::VertexProperty(i, n, v) => json!({ "k": "vp", "id": i.to_string(), "n": n.as_str(), "v": *v.0 }),
                    B::EdgeProperty(e, n, v) => json!({ "k": "ep", "e": edge_in(e), "n": n.as_str(), "v": *v.0 }),
                })
                .collect();
            json!({ "do": "bulk", "items": items })
        }
        o => panic!("harness: no plugin does {}", optext(o)),
    }
}

/// What the plugin's answer means.
pub fn said(op: &Op, r: Result<Value, String>) -> Ans {
    match (op, r) {
        (Op::CreateVertex(..) | Op::CreateEdge(..), Ok(Value::Bool(b))) => Ans::Created(b),
        (Op::CreateVertex(..) | Op::CreateEdge(..), Ok(v)) => Ans::Err(format!("the plugin said {v}")),
        (_, Ok(Value::Null)) => Ans::Ok,
        (_, Ok(v)) => Ans::Err(format!("the plugin said {v}")),
        (_, Err(e)) => Ans::Err(e),
    }
}

impl<D: Datastore + Send + Sync + 'static> Plugged<D> {
    fn new(db: Database<D>, pattern: &Path) -> Result<Plugged<D>, String> {
        Ok(Plugged(Remote::with(Arc::new(db), 1, Some(pattern.to_string_lossy().to_string()))?))
    }
    fn exec(&self, name: &str, arg: &Value) -> Result<Value, String> {
        let a = Json::new(arg.clone());
        self.0.call(|mut c| async move { c.execute_plugin(name, a).await }).map(|v| (*v.0).clone())
    }
}

impl<D: Datastore + Send + Sync + 'static> Handle for Plugged<D> {
    fn run(&self, op: &Op) -> Ans {
        match op {
            Op::Plug(o) => said(o, self.exec("do", &told(o))),
            o => self.0.run(o),
        }
    }
    fn ask(&self, q: Query) -> Result<Vec<QueryOutputValue>, String> {
        self.0.ask(q)
    }
}
impl<D: Datastore + Send + Sync + 'static> Served for Plugged<D> {
    fn beneath(&self) -> &dyn Handle {
        &*self.0.db
    }
}

pub fn serve(store: Store, path: &Path) -> Result<Box<dyn Served>, String> {
    let lib = built_lib("libmcplugin.so");
    Ok(match store {
        Store::NetRocks => Box::new(Plugged::<RocksdbDatastore>::new(open_rocks(path)?, &lib)?),
        _ => Box::new(Plugged::<MemoryDatastore>::new(MemoryDatastore::new_db(), &lib)?),
    })
}

/// Either store, to be called by name.
enum Any {
    Mem(Plugged<MemoryDatastore>),
    Rocks(Plugged<RocksdbDatastore>),
}
impl Any {
    fn new(rocks: bool, pattern: &Path, env: &mut Env) -> Result<Any, String> {
        Ok(if rocks { Any::Rocks(Plugged::new(open_rocks(&env.fresh_path())?, pattern)?) } else { Any::Mem(Plugged::new(MemoryDatastore::new_db(), pattern)?) })
    }
    fn exec(&self, name: &str, arg: &Value) -> Result<Value, String> {
        match self {
            Any::Mem(p) => p.exec(name, arg),
            Any::Rocks(p) => p.exec(name, arg),
        }
    }
    fn run(&self, op: &Op) -> Ans {
        match self {
            Any::Mem(p) => p.run(op),
            Any::Rocks(p) => p.run(op),
        }
    }
    fn addr(&self) -> std::net::SocketAddr {
        match self {
            Any::Mem(p) => p.0.addr,
            Any::Rocks(p) => p.0.addr,
        }
    }
    fn check(&self, m: &Model, u: &Universe) -> Result<u64, String> {
        let bat = mc_core::observe::battery(u, mc_core::observe::Depth::Full);
        match self {
            Any::Mem(p) => mc_core::observe::check_state(p, m, &bat),
            Any::Rocks(p) => mc_core::observe::check_state(p, m, &bat),
        }
    }
}

fn same(a: &Value, b: &Value) -> bool {
    canon(a) == canon(b)
}

// ---- names and arguments -----------------------------------------------------

fn names() -> Vec<String> {
    vec!["".into(), "a".into(), "A".into(), "ab".into(), "é".into(), "a b".into(), "n".repeat(300)]
}
fn asked() -> Vec<String> {
    let mut v = names();
    v.extend(["b", "a ", " a", "aa", "a\0", "e\u{301}", "*", "do", "å", "AB"].map(String::from));
    v
}

/// The argument comes to the plugin, and its answer back, as they are.
fn echo(values: Vec<Json>, rocks: bool) -> Box<dyn Part> {
    let n = values.len() as u64;
    let (v2, name) = (values.clone(), format!("arguments and answers ({})", if rocks { "RocksDB" } else { "memory" }));
    let nm = name.clone();
    let mut at: Option<Any> = None;
    cases(
        &name,
        n,
        move |i, env: &mut Env| {
            if at.is_none() {
                let lib = env.fresh_path().join("echo.so");
                place(&lib, json!({ "names": ["e", "f"] }));
                at = Some(Any::new(rocks, &lib, env).map_err(|e| Fail::new(&nm, e))?);
            }
            let db = at.as_ref().unwrap();
            let v = &*values[i as usize].0;
            let f = |e: String| Fail::new(&format!("{nm} | {v}"), format!("[{nm}] {v}: {e}"));
            for n in ["e", "f"] {
                let got = db.exec(n, v).map_err(f)?;
                if v.get("do").is_none() && v.get("back").is_none() && !same(&got, &json!({ "lib": "echo", "name": n, "arg": v })) {
                    return Err(f(format!("the plugin {n} answered {got}")));
                }
            }
            let got = db.exec("e", &json!({ "back": v })).map_err(f)?;
            if !same(&got, v) {
                return Err(f(format!("it came back as {got}")));
            }
            env.count("calls", 3);
            Ok(())
        },
        move |i| v2[i as usize].0.to_string(),
    )
}

/// Requests written by hand: no argument, or one that is none.
fn by_hand() -> Box<dyn Part> {
    // Field 1 is the name, field 2 the argument, whose field 1 is its text.
    let texts: Vec<Option<&str>> = vec![None, Some("null"), Some("1"), Some("\"x\""), Some(" [1 , 2] "), Some(""), Some("{"), Some("nul"), Some("1 2"), Some("\u{feff}1"), Some("[1,]")];
    let t2 = texts.clone();
    let nm = "arguments by hand";
    let mut at: Option<(Any, Raw)> = None;
    cases(
        nm,
        texts.len() as u64 * 2,
        move |i, env: &mut Env| {
            if at.is_none() {
                let lib = env.fresh_path().join("hand.so");
                place(&lib, json!({ "names": ["e"] }));
                let a = Any::new(false, &lib, env).map_err(|e| Fail::new(nm, e))?;
                let r = Raw::new(a.addr()).map_err(|e| Fail::new(nm, e))?;
                at = Some((a, r));
            }
            let (_, raw) = at.as_ref().unwrap();
            let (known, text) = (i % 2 == 0, texts[i as usize / 2]);
            let field = |n: u8, b: &[u8]| [vec![n << 3 | 2, b.len() as u8], b.to_vec()].concat();
            let mut msg = field(1, if known { b"e" } else { b"g" });
            if let Some(t) = text {
                msg.extend(field(2, &field(1, t.as_bytes())));
            }
            let f = |e: String| Fail::new(&format!("{nm} | {text:?} {known}"), format!("[{nm}] {text:?} to a plugin there is{}: {e}", if known { "" } else { " not" }));
            let r = raw.send("ExecutePlugin", vec![msg]).map_err(f)?;
            let arg: Option<Value> = match text {
                None => Some(Value::Null),
                Some(t) => serde_json::from_str(t).ok(),
            };
            match (arg, known, r) {
                (Some(a), true, Ok(out)) => {
                    // The answer's field 1 is a JSON text, in field 1.
                    let b = out.first().cloned().unwrap_or_default();
                    let t = String::from_utf8_lossy(&b).to_string();
                    let v: Option<Value> = t.find('{').and_then(|k| serde_json::from_str(&t[k..]).ok());
                    match v {
                        Some(v) if same(&v, &json!({ "lib": "hand", "name": "e", "arg": a })) => Ok(()),
                        _ => Err(f(format!("the answer was {t:?}"))),
                    }
                }
                (Some(_), false, Err(s)) if s.code() == Code::NotFound => Ok(()),
                (None, true, Err(s)) if s.code() == Code::InvalidArgument => Ok(()),
                (None, false, Err(s)) if [Code::InvalidArgument, Code::NotFound].contains(&s.code()) => Ok(()),
                (_, _, r) => Err(f(format!("the answer was {r:?}"))),
            }
        },
        move |i| format!("{:?} to {}", t2[i as usize / 2], if i % 2 == 0 { "a plugin there is" } else { "none" }),
    )
}

/// Every set of registered names, every name asked for.
fn by_name(rocks: bool) -> Box<dyn Part> {
    let name = format!("names ({})", if rocks { "RocksDB" } else { "memory" });
    let nm = name.clone();
    let sets = 1u64 << names().len();
    cases(
        &name,
        sets,
        move |i, env: &mut Env| {
            let all = names();
            let set: BTreeSet<String> = (0..all.len()).filter(|k| i >> k & 1 == 1).map(|k| all[k].clone()).collect();
            let f = |e: String| Fail::new(&format!("{nm} | {i}"), format!("[{nm}] registered {set:?}: {e}"));
            let lib = env.fresh_path().join("names.so");
            place(&lib, json!({ "names": set }));
            let db = Any::new(rocks, &lib, env).map_err(f)?;
            let mut m = Model::default();
            let pre = [cv(1, "x"), cv(2, "x"), ce(1, "t", 2), sv(1, "p", "1")];
            for o in &pre {
                db.run(o);
                let _ = apply_model(&mut m, o, &Nothing);
            }
            for n in asked() {
                // Were it carried out, this would show.
                let arg = json!({ "do": "delete_vertices", "ids": [id(1).to_string()] });
                let r = if set.contains(&n) { db.exec(&n, &json!([n])) } else { db.exec(&n, &arg) };
                match r {
                    Ok(v) if set.contains(&n) && same(&v, &json!({ "lib": "names", "name": n, "arg": [n] })) => {}
                    Err(e) if !set.contains(&n) && e.contains("unknown plugin") => {}
                    r => return Err(f(format!("calling {n:?} gave {r:?}"))),
                }
                env.count("calls", 1);
            }
            let u = Universe::new(&[1, 2], &["x"], &["t"], &["p"], &["1"]);
            db.check(&m, &u).map_err(f)?;
            drop(db);
            let _ = std::fs::remove_dir_all(lib.parent().unwrap());
            Ok(())
        },
        |i| format!("the set {i:b} of {:?}", names().iter().map(|n| n.chars().take(5).collect::<String>()).collect::<Vec<_>>()),
    )
}

/// The model needs to ask nothing here.
struct Nothing;
impl Ask for Nothing {
    fn vertex_type(&self, _: uuid::Uuid) -> Result<Option<String>, String> {
        Err("harness".into())
    }
    fn edge_exists(&self, _: &EKey) -> Result<bool, String> {
        Err("harness".into())
    }
    fn vprop(&self, _: uuid::Uuid, _: &str) -> Result<Option<Val>, String> {
        Err("harness".into())
    }
    fn eprop(&self, _: &EKey, _: &str) -> Result<Option<Val>, String> {
        Err("harness".into())
    }
}

/// A plugin's error comes back, and the database goes on.
fn errors(rocks: bool) -> Box<dyn Part> {
    let kinds = ["json", "taken", "not-indexed", "unsupported", "on-query", "io", "datastore", "invalid", "argument", "other", "map"];
    let texts = ["it broke", "", "é \u{1f600} \"quoted\"\n% line", "ok"];
    let name = format!("errors ({})", if rocks { "RocksDB" } else { "memory" });
    let nm = name.clone();
    cases(
        &name,
        (kinds.len() * texts.len()) as u64,
        move |i, env: &mut Env| {
            let (kind, text) = (kinds[i as usize % kinds.len()], texts[i as usize / kinds.len()]);
            let f = |e: String| Fail::new(&format!("{nm} | {kind} {text:?}"), format!("[{nm}] {kind} {text:?}: {e}"));
            let db = Any::new(rocks, &built_lib("libmcplugin.so"), env).map_err(f)?;
            let mut m = Model::default();
            let pre = [cv(1, "x"), cv(2, "x"), ce(1, "t", 2), sv(1, "p", "1")];
            for o in &pre {
                db.run(o);
                let _ = apply_model(&mut m, o, &Nothing);
            }
            let (arg, want) = match kind {
                "map" => (json!({ "do": "map", "fail": true }), "not ".to_string()),
                k => (
                    json!({ "do": "fail", "kind": k, "text": text }),
                    match k {
                        "json" => "json error: ".into(),
                        "taken" => "UUID already taken".into(),
                        "not-indexed" => "isn't indexed".into(),
                        "unsupported" => "not supported".into(),
                        "on-query" => "cannot work with the given query".into(),
                        "invalid" => "invalid".into(),
                        _ => text.to_string(),
                    },
                ),
            };
            for _ in 0..2 {
                match db.exec("do", &arg) {
                    Err(e) if e.starts_with('~') && e.contains(&want) => {}
                    r => return Err(f(format!("the answer was {r:?}, not an error with {want:?}"))),
                }
            }
            let u = Universe::new(&[1, 2], &["x"], &["t"], &["p"], &["1"]);
            db.check(&m, &u).map_err(f)?;
            let o = cv(3, "x");
            let _ = apply_model(&mut m, &o, &Nothing);
            if db.run(&o) != Ans::Created(true) {
                return Err(f("afterwards a vertex could not be made".into()));
            }
            db.check(&m, &u).map_err(f)?;
            Ok(())
        },
        move |i| format!("{} {:?}", kinds[i as usize % kinds.len()], texts[i as usize / kinds.len()]),
    )
}

// ---- the database, seen and changed from within ------------------------------

fn plug(o: &Op) -> Op {
    Op::Plug(Box::new(o.clone()))
}

/// What the plugin can do of an alphabet, and all of it by request.
fn both_ways(ops: Vec<Op>) -> Vec<Op> {
    let able = |o: &Op| match o {
        Op::Set(q, ..) => matches!(q, Query::SpecificVertex(_) | Query::SpecificEdge(_)),
        Op::Delete(Query::PipeProperty(p)) => matches!(&*p.inner, Query::SpecificVertex(_) | Query::SpecificEdge(_)),
        Op::Delete(q) => matches!(q, Query::SpecificVertex(_) | Query::SpecificEdge(_)),
        Op::Reopen | Op::ReopenAs(_) | Op::Get(_) | Op::Plug(_) => false,
        _ => true,
    };
    let by_plugin: Vec<Op> = ops.iter().filter(|o| able(o)).map(plug).collect();
    ops.into_iter().chain(by_plugin).collect()
}

/// The graph, as the plugin sees it.
fn views(rocks: bool) -> Box<dyn Part> {
    let mut graphs = query_graphs();
    graphs.push(vec![cv(1, "x"), ce(1, "t", 1), index("p"), sv(1, "p", "[1,{\"a\":null}]"), sv(1, "", "0"), se_((1, "t", 1), "p", "\"s\""), index("nothing")]);
    let name = format!("the graph, as a plugin sees it ({})", if rocks { "RocksDB" } else { "memory" });
    let nm = name.clone();
    let n = graphs.len() as u64;
    cases(
        &name,
        n * 3,
        move |i, env: &mut Env| {
            let g = &graphs[(i / 3) as usize];
            let f = |e: String| Fail::new(&format!("{nm} | {i}"), format!("[{nm}] graph {} made {}: {e}", i / 3, ["by requests", "by a plugin", "by both in turn"][(i % 3) as usize]));
            let db = Any::new(rocks, &built_lib("libmcplugin.so"), env).map_err(f)?;
            let mut m = Model::default();
            for (k, o) in g.iter().enumerate() {
                let by_plugin = match i % 3 {
                    0 => false,
                    1 => true,
                    _ => k % 2 == 0,
                } && both_ways(vec![o.clone()]).len() == 2;
                let want = apply_model(&mut m, o, &Nothing).map_err(f)?;
                let got = db.run(&if by_plugin { plug(o) } else { o.clone() });
                if got != want {
                    return Err(f(format!("{} answered {}", optext(o), ans_text(&got))));
                }
            }
            let names = ["p", "q", "pp", "", "nothing"];
            let v = db.exec("do", &json!({ "do": "look", "names": names })).map_err(f)?;
            let text = |x: &Value| x.to_string();
            let sorted = |v: &Value, inner: bool| -> Vec<String> {
                let mut l: Vec<String> = v
                    .as_array()
                    .into_iter()
                    .flatten()
                    .map(|x| {
                        if !inner {
                            return text(x);
                        }
                        let mut y = x.as_array().cloned().unwrap_or_default();
                        if let Some(Value::Array(p)) = y.last_mut() {
                            p.sort_by_key(|z| z[0].to_string());
                        }
                        text(&Value::Array(y))
                    })
                    .collect();
                l.sort();
                l
            };
            if v["odd"] != json!([]) {
                return Err(f(format!("the plugin found: {}", v["odd"])));
            }
            let ej = |k: &EKey| json!([k.0.to_string(), k.1, k.2.to_string()]);
            // Values were written as JSON texts in the operations.
            let mut vs: Vec<Value> = vec![];
            for (i, t) in &m.vertices {
                let p: Vec<Value> = m.vprops.iter().filter(|(k, _)| k.0 == *i).map(|(k, x)| json!([k.1, x.to_string()])).collect();
                vs.push(json!([i.to_string(), t, p]));
            }
            let mut es: Vec<Value> = vec![];
            for e in &m.edges {
                let p: Vec<Value> = m.eprops.iter().filter(|(k, _)| k.0 == *e).map(|(k, x)| json!([k.1, x.to_string()])).collect();
                es.push(json!([ej(e), p]));
            }
            // The plugin's values in the model's form.
            let as_model = |l: &Value| -> Value {
                let mut l = l.clone();
                for x in l.as_array_mut().into_iter().flatten() {
                    if let Some(Value::Array(p)) = x.as_array_mut().and_then(|x| x.last_mut()) {
                        for z in p.iter_mut() {
                            z[1] = json!(canon(&z[1]).to_string());
                        }
                    }
                }
                l
            };
            for (what, got, want) in [("vertices", &v["vertices"], vs), ("edges", &v["edges"], es)] {
                let (got, want) = (sorted(&as_model(got), true), sorted(&Value::Array(want), true));
                if got != want {
                    return Err(f(format!("{what}: the plugin saw {got:?}, there were {want:?}")));
                }
            }
            for (k, n) in names.iter().enumerate() {
                let row = &v["index"][k];
                let (vw, ew) = if m.indexed.contains(*n) {
                    (
                        json!(m.vprops.keys().filter(|x| x.1 == *n).map(|x| x.0.to_string()).collect::<Vec<_>>()),
                        json!(m.eprops.keys().filter(|x| x.1 == *n).map(|x| ej(&x.0)).collect::<Vec<_>>()),
                    )
                } else {
                    (Value::Null, Value::Null)
                };
                for (what, got, want) in [("vertices", &row[1], vw), ("edges", &row[2], ew)] {
                    if got.is_null() != want.is_null() || sorted(got, false) != sorted(&want, false) {
                        return Err(f(format!("{what} with {n:?} by the index: the plugin saw {got}, there were {want}")));
                    }
                }
            }
            let mapped = db.exec("do", &json!({ "do": "map" })).map_err(f)?;
            let all: Vec<String> = m.vertices.keys().map(|i| i.to_string()).collect();
            if sorted(&mapped, false) != sorted(&json!(all), false) {
                return Err(f(format!("mapped over {mapped}, there were {all:?}")));
            }
            let count = Any::new_over_sample(&db, env, &m);
            count.map_err(f)
        },
        |i| format!("graph {} made {}", i / 3, ["by requests", "by a plugin", "by both in turn"][(i % 3) as usize]),
    )
}

impl Any {
    /// The sample plugins, on the same database.
    fn new_over_sample(db: &Any, _env: &mut Env, m: &Model) -> Result<(), String> {
        fn go<D: Datastore + Send + Sync + 'static>(p: &Plugged<D>, m: &Model) -> Result<(), String> {
            let mut pattern = built_lib("libindradb_plugin_*.so").to_string_lossy().to_string();
            if let Ok(s) = std::env::var("MC_SAMPLES") {
                pattern = Path::new(&s).join("libindradb_plugin_*.so").to_string_lossy().to_string();
            }
            let s = Plugged(Remote::with(p.0.db.clone(), usize::MAX, Some(pattern))?);
            let n = s.exec("naive_vertex_count", &Value::Null)?;
            if n != json!(m.vertices.len()) {
                return Err(format!("naive_vertex_count: {n} of {}", m.vertices.len()));
            }
            for a in [json!("x"), json!(null), json!([1, "2"])] {
                let n = s.exec("hello_world", &a)?;
                if n != json!(format!("hello, {a}")) {
                    return Err(format!("hello_world({a}): {n}"));
                }
            }
            Ok(())
        }
        match db {
            Any::Mem(p) => go(p, m),
            Any::Rocks(p) => go(p, m),
        }
    }
}

// ---- which libraries are let in ----------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Member {
    Good,
    Other,
    NoNames,
    Macro,
    NextInterface,
    NoInterface,
    OldCompiler,
    LongerCompiler,
    MacroNext,
    NoRegister,
    Text,
    Empty,
    Directory,
}
use Member::*;
const MEMBERS: [Member; 13] = [Good, Other, NoNames, Macro, NextInterface, NoInterface, OldCompiler, LongerCompiler, MacroNext, NoRegister, Text, Empty, Directory];
impl Member {
    fn fine(self) -> bool {
        matches!(self, Good | Other | NoNames | Macro)
    }
    fn version(self) -> bool {
        matches!(self, NextInterface | NoInterface | OldCompiler | LongerCompiler | MacroNext)
    }
    fn names(self) -> Vec<&'static str> {
        match self {
            Good => vec!["good", "shared"],
            Other => vec!["other", "shared"],
            Macro => vec!["m1", "m2", "m 3"],
            _ => vec![],
        }
    }
    fn make(self, at: &Path) {
        let copy = |n: &str| {
            std::fs::copy(built_lib(n), at).expect("the plugin library");
        };
        match self {
            Good | Other => place(at, json!({ "names": self.names() })),
            NoNames => place(at, json!({ "names": [] })),
            NextInterface => place(at, json!({ "names": ["bad"], "interface": 2 })),
            NoInterface => place(at, json!({ "names": ["bad"], "interface": 0 })),
            OldCompiler => place(at, json!({ "names": ["bad"], "rustc": "1.0.0" })),
            LongerCompiler => place(at, json!({ "names": ["bad"], "rustc": "*.1" })),
            Macro => copy("examples/libmcplugin_one.so"),
            MacroNext => copy("examples/libmcplugin_two.so"),
            NoRegister => copy("examples/libmcplugin_none.so"),
            Text => std::fs::write(at, "this is no library").unwrap(),
            Empty => std::fs::write(at, "").unwrap(),
            Directory => std::fs::create_dir(at).unwrap(),
        }
    }
}

fn members(i: u64, menu: &[Member], len: usize) -> Vec<Member> {
    let mut i = i;
    (0..len)
        .map(|_| {
            let m = menu[(i % menu.len() as u64) as usize];
            i /= menu.len() as u64;
            m
        })
        .collect()
}

/// How a server that was given the pattern ended, or what it serves.
fn serves(pattern: &str, want: &BTreeSet<String>, not: &[&str], m: &Model) -> Result<Result<(), String>, String> {
    let db = Arc::new(MemoryDatastore::new_db());
    db.create_vertex(&vertex(id(1), "x")).map_err(|e| e.to_string())?;
    let start = |db: Arc<Database<MemoryDatastore>>| {
        wait(async {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
            let addr = l.local_addr().map_err(|e| e.to_string())?;
            let p = pattern.to_string();
            let mut task = tokio::spawn(async move { unsafe { indradb_proto::run_server_with_plugins(db, l, &p).await }.map_err(|e| format!("{e:?}")) });
            // It has ended, or it answers.
            loop {
                tokio::select! {
                    r = &mut task => return Ok::<_, String>((addr, Err(match r { Ok(Ok(())) => "it ended".to_string(), Ok(Err(e)) => e, Err(e) => format!("it panicked: {e}") }), None)),
                    c = connect(addr) => match c {
                        Ok(mut c) => tokio::select! {
                            r = &mut task => return Ok((addr, Err(match r { Ok(Ok(())) => "it ended".to_string(), Ok(Err(e)) => e, Err(e) => format!("it panicked: {e}") }), None)),
                            r = c.ping() => if r.is_ok() { return Ok((addr, Ok(c), Some(task))) },
                        },
                        Err(_) => tokio::time::sleep(std::time::Duration::from_millis(1)).await,
                    },
                }
            }
        })?
    };
    let (addr, r, task) = start(db.clone())?;
    let out = match r {
        Err(e) => {
            if e.starts_with("it ") {
                return Err(e);
            }
            if std::net::TcpStream::connect(addr).is_ok() {
                return Err(format!("it refused ({e}), but its address is still served"));
            }
            Err(e)
        }
        Ok(c) => {
            for n in want {
                let (mut c, n2) = (c.clone(), n.clone());
                let v = wait(async move { c.execute_plugin(&n2, Json::new(json!(7))).await })?.map_err(|e| format!("calling {n:?} failed: {e}"))?;
                if v["arg"] != 7 || (v["name"] != json!(n) && v["macro"] != json!(n)) {
                    return Err(format!("calling {n:?} gave {}", *v.0));
                }
            }
            for n in not {
                let (mut c, n2) = (c.clone(), n.to_string());
                let r = wait(async move { c.execute_plugin(&n2, Json::new(json!(7))).await })?;
                if !r.as_ref().is_err_and(|e| e.to_string().contains("unknown plugin")) {
                    return Err(format!("calling {n:?}, which is not there, gave {r:?}"));
                }
            }
            Ok(())
        }
    };
    if let Some(t) = task {
        t.abort();
        let _ = wait(t)?;
    }
    let u = Universe::new(&[1], &["x"], &["t"], &["p"], &["1"]);
    mc_core::observe::check_state(&*db, m, &mc_core::observe::battery(&u, mc_core::observe::Depth::Full))?;
    Ok(out)
}

/// Every list of libraries of the menu.
fn sets(menu: Vec<Member>, len: usize) -> Box<dyn Part> {
    let name = format!("sets of {len} libraries of {}", menu.len());
    let n = (menu.len() as u64).pow(len as u32);
    let (nm, menu2) = (name.clone(), menu.clone());
    cases(
        &name,
        n,
        move |i, env: &mut Env| {
            let ms = members(i, &menu, len);
            let f = |e: String| Fail::new(&format!("{nm} | {ms:?}"), format!("[{nm}] {ms:?}: {e}"));
            let dir = env.fresh_path();
            std::fs::create_dir_all(&dir).unwrap();
            for (k, m) in ms.iter().enumerate() {
                m.make(&dir.join(format!("l{k}.so")));
            }
            let want: BTreeSet<String> = ms.iter().flat_map(|m| m.names()).map(String::from).collect();
            let mut m = Model::default();
            m.create_vertex(id(1), "x");
            let r = serves(&dir.join("*.so").to_string_lossy(), &want, &["bad", "two"], &m).map_err(f)?;
            match r {
                Ok(()) if ms.iter().all(|m| m.fine()) => {}
                Ok(()) => return Err(f("it serves".into())),
                Err(e) if ms.iter().all(|m| m.fine()) => return Err(f(format!("it refuses to start: {e}"))),
                Err(e) if ms.iter().all(|m| m.fine() || m.version()) && !e.contains("VersionMismatch") => return Err(f(format!("it refuses for another reason: {e}"))),
                Err(e) if !ms.iter().any(|m| m.version()) && e.contains("VersionMismatch") => return Err(f(format!("it refuses for another reason: {e}"))),
                Err(_) => {}
            }
            env.count("servers started", 1);
            let _ = std::fs::remove_dir_all(dir);
            Ok(())
        },
        move |i| format!("{:?}", members(i, &menu2, len)),
    )
}

/// Patterns over a tree of libraries.
fn patterns() -> Box<dyn Part> {
    // The names registered are those of the files; `None`: it must refuse.
    let list: Vec<(&str, Option<Vec<&str>>)> = vec![
        ("*.so", Some(vec!["a", "ab", "b"])),
        ("a.so", Some(vec!["a"])),
        ("?.so", Some(vec!["a", "b"])),
        ("a*.so", Some(vec!["a", "ab"])),
        ("[ab].so", Some(vec!["a", "b"])),
        ("[!a]*.so", Some(vec!["b"])),
        ("**/*.so", Some(vec!["a", "ab", "b", "c", "d"])),
        ("**/c.so", Some(vec!["c"])),
        ("*/*.so", Some(vec!["c", "d"])),
        ("sub/c.so", Some(vec!["c"])),
        ("su[a-b]/*.so", Some(vec!["c"])),
        ("none*.so", Some(vec![])),
        ("none/x.so", Some(vec![])),
        ("A.so", Some(vec![])),
        ("*.txt", None),
        ("[at]*", None),
        ("***", None),
        ("a[.so", None),
        ("a**.so", None),
    ];
    let l2: Vec<String> = list.iter().map(|x| x.0.to_string()).collect();
    let nm = "patterns";
    cases(
        nm,
        list.len() as u64,
        move |i, env: &mut Env| {
            let (p, want) = &list[i as usize];
            let f = |e: String| Fail::new(&format!("{nm} | {p}"), format!("[{nm}] {p}: {e}"));
            let dir = env.fresh_path();
            for (path, n) in [("a.so", "a"), ("b.so", "b"), ("ab.so", "ab"), ("sub/c.so", "c"), ("tub/d.so", "d")] {
                place(&dir.join(path), json!({ "names": [n] }));
            }
            std::fs::write(dir.join("t.txt"), "no library").unwrap();
            let mut m = Model::default();
            m.create_vertex(id(1), "x");
            let names: BTreeSet<String> = want.iter().flatten().map(|s| s.to_string()).collect();
            let not: Vec<&str> = ["a", "ab", "b", "c", "d"].into_iter().filter(|n| !names.contains(*n)).collect();
            match (serves(&dir.join(p).to_string_lossy(), &names, &not, &m).map_err(f)?, want) {
                (Ok(()), Some(_)) | (Err(_), None) => {}
                (Ok(()), None) => return Err(f("it serves".into())),
                (Err(e), Some(_)) => return Err(f(format!("it refuses to start: {e}"))),
            }
            env.count("servers started", 1);
            let _ = std::fs::remove_dir_all(dir);
            Ok(())
        },
        move |i| l2[i as usize].clone(),
    )
}

pub fn c26(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    for rocks in [false, true] {
        let vals = values(if t && !rocks { 2 } else { 1 }, 2).into_iter().filter(|v| roundtrips(&v.0)).collect();
        p.push(echo(vals, rocks));
        p.push(by_name(rocks));
        p.push(errors(rocks));
        p.push(views(rocks));
    }
    p.push(by_hand());
    p.push(sets(MEMBERS.to_vec(), 1));
    p.push(sets(MEMBERS.to_vec(), 2));
    p.push(sets(if t { MEMBERS.to_vec() } else { vec![Good, Other, OldCompiler, NoRegister, NextInterface] }, 3));
    p.push(patterns());
    for s in [Store::NetMem, Store::NetRocks] {
        let rocks = s == Store::NetRocks;
        let mut sc = general(s, 1, 2);
        sc.alphabet.extend([
            sv(1, "p", "\"2\""),
            Op::Bulk(vec![bv(1, "y"), bv(2, "x"), be(1, "t", 2), bvp(1, "p", "1"), bep(1, "t", 2, "p", "[2]")]),
        ]);
        sc.alphabet = both_ways(sc.alphabet);
        let pre = vec![cv(1, "x"), cv(2, "x"), ce(1, "t", 2), index("p"), sv(1, "p", "1"), se_((1, "t", 2), "p", "1")];
        p.push(Tree::new(with_prefix(sc.clone(), "from nothing", vec![]), 2));
        p.push(Tree::new(with_prefix(sc.clone(), "on what requests made", pre.clone()), if t { 3 } else { 2 }));
        p.push(Tree::new(with_prefix(sc.clone(), "on what a plugin made", pre.iter().map(plug).collect()), if t { 3 } else { 2 }));
        p.push(Graph::new(sc, if t { 5 } else { 3 }, if rocks { 1 } else { 2 }));
    }
    p
}
