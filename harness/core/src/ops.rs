//! Operations: how they are written down, run on a database, and run on the
//! reference model.

use crate::model::*;
use crate::observe;
use indradb::{BulkInsertItem, Database, Datastore, Edge, Error, Identifier, Json, Query, Vertex};
use uuid::Uuid;

#[derive(Clone, Debug)]
pub enum Op {
    CreateVertex(Uuid, String),
    CreateEdge(Uuid, String, Uuid),
    Delete(Query),
    Set(Query, String, Json),
    Bulk(Vec<BulkInsertItem>),
    Index(String),
    Get(Query),
    Sync,
    /// Close and open again (only where the engine supports it).
    Reopen,
    /// Close and open again in one of the ways of `WAYS` (RocksDB).
    ReopenAs(usize),
    /// The same, by a plugin (where there is one).
    Plug(Box<Op>),
}

pub const WAYS: [&str; 9] = [
    "new_db",
    "new_db_with_options(get_options(None))",
    "new_db_with_options(get_options(Some(16)))",
    "new_db_with_options(default)",
    "new_db_with_options(custom)",
    "repair, new_db",
    "repair, new_db_with_options(custom)",
    "repair twice, new_db",
    "open, close, new_db",
];

/// What an operation answered. An error whose text starts with `~` stands for
/// any error.
#[derive(Clone, Debug)]
pub enum Ans {
    Created(bool),
    Ok,
    Out(Vec<MOut>),
    Err(String),
}
impl PartialEq for Ans {
    fn eq(&self, o: &Ans) -> bool {
        match (self, o) {
            (Ans::Created(a), Ans::Created(b)) => a == b,
            (Ans::Ok, Ans::Ok) => true,
            (Ans::Out(a), Ans::Out(b)) => a == b,
            (Ans::Err(a), Ans::Err(b)) => a == b || a.starts_with('~') || b.starts_with('~'),
            _ => false,
        }
    }
}
impl Eq for Ans {}

/// Something that carries out operations: a database, or a way to reach one.
pub trait Handle {
    fn run(&self, op: &Op) -> Ans;
    /// A query's outputs, or an error's text.
    fn ask(&self, q: Query) -> Result<Vec<indradb::QueryOutputValue>, String>;
}

pub fn err_text(e: &Error) -> String {
    match e {
        Error::UuidTaken => "UuidTaken".into(),
        Error::NotIndexed => "NotIndexed".into(),
        Error::Unsupported => "Unsupported".into(),
        Error::OperationOnQuery => "OperationOnQuery".into(),
        Error::Invalid(v) => format!("Invalid({v})"),
        Error::Datastore(_) => "Datastore".into(),
        Error::Io(_) => "Io".into(),
        _ => "Other".into(),
    }
}

pub fn merr_text(e: &MErr) -> String {
    match e {
        MErr::NotIndexed => "NotIndexed".into(),
        MErr::OperationOnQuery => "OperationOnQuery".into(),
    }
}

fn unit(r: Result<(), Error>) -> Ans {
    match r {
        Ok(()) => Ans::Ok,
        Err(e) => Ans::Err(err_text(&e)),
    }
}
fn created(r: Result<bool, Error>) -> Ans {
    match r {
        Ok(b) => Ans::Created(b),
        Err(e) => Ans::Err(err_text(&e)),
    }
}

impl<D: Datastore> Handle for Database<D> {
    fn run(&self, op: &Op) -> Ans {
        let db = self;
        match op {
            Op::CreateVertex(id, t) => created(db.create_vertex(&Vertex::with_id(*id, ident(t)))),
            Op::CreateEdge(a, t, b) => created(db.create_edge(&Edge::new(*a, ident(t), *b))),
            Op::Delete(q) => unit(db.delete(q.clone())),
            Op::Set(q, n, v) => unit(db.set_properties(q.clone(), ident(n), v)),
            Op::Bulk(items) => unit(db.bulk_insert(items.clone())),
            Op::Index(n) => unit(db.index_property(ident(n))),
            Op::Get(q) => match db.get(q.clone()) {
                Ok(o) => Ans::Out(o.iter().map(|x| observe::mout(x).sorted()).collect()),
                Err(e) => Ans::Err(err_text(&e)),
            },
            Op::Sync => unit(db.sync()),
            Op::Reopen | Op::ReopenAs(_) => Ans::Ok,
            Op::Plug(o) => self.run(o),
        }
    }
    fn ask(&self, q: Query) -> Result<Vec<indradb::QueryOutputValue>, String> {
        self.get(q).map_err(|e| err_text(&e))
    }
}

pub fn apply<H: Handle + ?Sized>(db: &H, op: &Op) -> Ans {
    db.run(op)
}

/// How a store may answer where the documentation leaves latitude in bulk
/// insertion; asked from the store itself right after the operation.
pub trait Ask {
    fn vertex_type(&self, id: Uuid) -> Result<Option<String>, String>;
    fn edge_exists(&self, e: &EKey) -> Result<bool, String>;
    fn vprop(&self, id: Uuid, n: &str) -> Result<Option<Val>, String>;
    fn eprop(&self, e: &EKey, n: &str) -> Result<Option<Val>, String>;
}

impl<H: Handle + ?Sized> Ask for H {
    fn vertex_type(&self, id: Uuid) -> Result<Option<String>, String> {
        match self.ask(indradb::SpecificVertexQuery::single(id).into()) {
            Ok(o) => match o.last() {
                Some(indradb::QueryOutputValue::Vertices(v)) if v.len() <= 1 => Ok(v.first().map(|v| v.t.to_string())),
                o => Err(format!("lookup of one vertex gave {o:?}")),
            },
            Err(e) => Err(format!("lookup of a vertex failed: {e}")),
        }
    }
    fn edge_exists(&self, e: &EKey) -> Result<bool, String> {
        match self.ask(indradb::SpecificEdgeQuery::single(edge_of(e)).into()) {
            Ok(o) => match o.last() {
                Some(indradb::QueryOutputValue::Edges(v)) if v.len() <= 1 => Ok(v.len() == 1),
                o => Err(format!("lookup of one edge gave {o:?}")),
            },
            Err(e) => Err(format!("lookup of an edge failed: {e}")),
        }
    }
    fn vprop(&self, id: Uuid, n: &str) -> Result<Option<Val>, String> {
        let q = q_props(q_v(id), Some(n));
        match self.ask(q).map(|o| o.last().map(observe::mout)) {
            Ok(Some(MOut::VP(p))) if p.len() <= 1 => Ok(p.first().and_then(|x| x.1.first().map(|y| y.1.clone()))),
            o => Err(format!("property fetch gave {o:?}")),
        }
    }
    fn eprop(&self, e: &EKey, n: &str) -> Result<Option<Val>, String> {
        let q = q_props(q_e(e), Some(n));
        match self.ask(q).map(|o| o.last().map(observe::mout)) {
            Ok(Some(MOut::EP(p))) if p.len() <= 1 => Ok(p.first().and_then(|x| x.1.first().map(|y| y.1.clone()))),
            o => Err(format!("property fetch gave {o:?}")),
        }
    }
}

/// Applies the operation to the model and says what the answer must be.
/// `ask` settles latitude; an answer outside the latitude is an error.
pub fn apply_model(m: &mut Model, op: &Op, ask: &dyn Ask) -> Result<Ans, String> {
    let fail = |e: MErr| Ok(Ans::Err(merr_text(&e)));
    match op {
        Op::CreateVertex(id, t) => {
            let c = m.create_vertex(*id, t);
            if c {
                settle_orphans_v(m, *id, ask)?;
            }
            Ok(Ans::Created(c))
        }
        Op::CreateEdge(a, t, b) => {
            let k = (*a, t.clone(), *b);
            let had = m.edges.contains(&k);
            let c = m.create_edge(&k);
            if c && !had {
                settle_orphans_e(m, &k, ask)?;
            }
            Ok(Ans::Created(c))
        }
        Op::Delete(q) => match m.last(q) {
            Ok(sel) => match m.delete_selected(&sel) {
                Ok(()) => Ok(Ans::Ok),
                Err(e) => fail(e),
            },
            Err(e) => fail(e),
        },
        Op::Set(q, n, v) => match m.last(q) {
            Ok(sel) => match m.set_selected(&sel, n, &cj(v)) {
                Ok(()) => Ok(Ans::Ok),
                Err(e) => fail(e),
            },
            Err(e) => fail(e),
        },
        Op::Bulk(items) => {
            bulk_model(m, items, ask)?;
            Ok(Ans::Ok)
        }
        Op::Index(n) => {
            m.indexed.insert(n.clone());
            Ok(Ans::Ok)
        }
        Op::Get(q) => match m.eval(q) {
            Ok(o) => Ok(Ans::Out(o.into_iter().map(|x| x.sorted()).collect())),
            Err(e) => fail(e),
        },
        Op::Sync | Op::Reopen | Op::ReopenAs(_) => Ok(Ans::Ok),
        Op::Plug(o) => apply_model(m, o, ask),
    }
}

fn settle_orphans_v(m: &mut Model, id: Uuid, ask: &dyn Ask) -> Result<(), String> {
    let ks: Vec<_> = m.orphan_v.iter().filter(|((i, _), _)| *i == id).map(|(k, v)| (k.clone(), v.clone())).collect();
    for ((i, n), v) in ks {
        match ask.vprop(i, &n)? {
            None => {}
            Some(x) if x == v => {
                m.vprops.insert((i, n.clone()), v);
            }
            Some(x) => return Err(format!("vertex {} has property {n}={x}, which was never the last value set", sid(i))),
        }
        m.orphan_v.remove(&(i, n));
    }
    Ok(())
}
fn settle_orphans_e(m: &mut Model, e: &EKey, ask: &dyn Ask) -> Result<(), String> {
    let ks: Vec<_> = m.orphan_e.iter().filter(|((i, _), _)| i == e).map(|(k, v)| (k.clone(), v.clone())).collect();
    for ((i, n), v) in ks {
        match ask.eprop(&i, &n)? {
            None => {}
            Some(x) if x == v => {
                m.eprops.insert((i.clone(), n.clone()), v);
            }
            Some(x) => return Err(format!("edge {} has property {n}={x}, which was never the last value set", se(&i))),
        }
        m.orphan_e.remove(&(i, n));
    }
    Ok(())
}

fn bulk_model(m: &mut Model, items: &[BulkInsertItem], ask: &dyn Ask) -> Result<(), String> {
    // Which types a vertex may have afterwards: the one it had, or any the
    // batch gave it (latitude for vertices that exist already).
    let mut allowed: std::collections::BTreeMap<Uuid, Vec<String>> = Default::default();
    let mut maybe: Vec<EKey> = vec![];
    for i in items {
        match i {
            BulkInsertItem::Vertex(v) => {
                let t = v.t.to_string();
                match m.vertices.get(&v.id) {
                    Some(old) => {
                        let a = allowed.entry(v.id).or_insert_with(|| vec![old.clone()]);
                        a.push(t);
                    }
                    None => {
                        m.vertices.insert(v.id, t);
                    }
                }
            }
            BulkInsertItem::Edge(e) => {
                let k = ek(e);
                if m.edges.contains(&k) {
                } else if !m.create_edge(&k) {
                    maybe.push(k);
                }
            }
            BulkInsertItem::VertexProperty(id, n, v) => {
                if m.vertices.contains_key(id) {
                    m.orphan_v.remove(&(*id, n.to_string()));
                    m.vprops.insert((*id, n.to_string()), cj(v));
                } else {
                    m.orphan_v.insert((*id, n.to_string()), cj(v));
                }
            }
            BulkInsertItem::EdgeProperty(e, n, v) => {
                let k = ek(e);
                if m.edges.contains(&k) {
                    m.orphan_e.remove(&(k.clone(), n.to_string()));
                    m.eprops.insert((k, n.to_string()), cj(v));
                } else {
                    m.orphan_e.insert((k, n.to_string()), cj(v));
                }
            }
        }
    }
    for (id, types) in allowed {
        let got = ask.vertex_type(id)?;
        match got {
            Some(t) if types.contains(&t) => {
                m.vertices.insert(id, t);
            }
            got => return Err(format!("after the bulk insertion vertex {} has type {got:?}, allowed {types:?}", sid(id))),
        }
    }
    for k in maybe {
        if !m.edges.contains(&k) && ask.edge_exists(&k)? {
            m.edges.insert(k.clone());
        }
    }
    // Properties given to elements before they came to exist: open.
    let ids: Vec<Uuid> = m.vertices.keys().copied().collect();
    for id in ids {
        settle_orphans_v(m, id, ask)?;
    }
    let es: Vec<EKey> = m.edges.iter().cloned().collect();
    for e in es {
        settle_orphans_e(m, &e, ask)?;
    }
    Ok(())
}

// ---- text ------------------------------------------------------------------

pub fn qtext(q: &Query) -> String {
    let lim = |l: u32| if l == u32::MAX { String::new() } else { format!(",limit={l}") };
    let ty = |t: &Option<Identifier>| t.map_or(String::new(), |t| format!(",t={}", sn(t.as_str())));
    match q {
        Query::AllVertex => "AllVertex".into(),
        Query::RangeVertex(r) => format!(
            "Range({}{}{})",
            r.start_id.map_or("-".into(), sid),
            ty(&r.t),
            lim(r.limit)
        ),
        Query::SpecificVertex(s) => format!("V[{}]", s.ids.iter().map(|i| sid(*i)).collect::<Vec<_>>().join(",")),
        Query::VertexWithPropertyPresence(p) => format!("VHas({})", sn(p.name.as_str())),
        Query::VertexWithPropertyValue(p) => format!("VEq({},{})", sn(p.name.as_str()), p.value.0),
        Query::AllEdge => "AllEdge".into(),
        Query::SpecificEdge(s) => format!("E[{}]", s.edges.iter().map(|e| se(&ek(e))).collect::<Vec<_>>().join(",")),
        Query::EdgeWithPropertyPresence(p) => format!("EHas({})", sn(p.name.as_str())),
        Query::EdgeWithPropertyValue(p) => format!("EEq({},{})", sn(p.name.as_str()), p.value.0),
        Query::Pipe(p) => format!("{}.{:?}({}{})", qtext(&p.inner), p.direction, ty(&p.t).trim_start_matches(','), lim(p.limit)),
        Query::PipeProperty(p) => format!("{}.props({})", qtext(&p.inner), p.name.map_or("*".into(), |n| sn(n.as_str()))),
        Query::PipeWithPropertyPresence(p) => {
            format!("{}.{}({})", qtext(&p.inner), if p.exists { "has" } else { "lacks" }, sn(p.name.as_str()))
        }
        Query::PipeWithPropertyValue(p) => {
            format!("{}.{}({},{})", qtext(&p.inner), if p.equal { "eq" } else { "ne" }, sn(p.name.as_str()), p.value.0)
        }
        Query::Include(p) => format!("{}.include", qtext(&p.inner)),
        Query::Count(p) => format!("{}.count", qtext(&p.inner)),
    }
}

pub fn optext(op: &Op) -> String {
    match op {
        Op::CreateVertex(id, t) => format!("create_vertex({},{})", sid(*id), sn(t)),
        Op::CreateEdge(a, t, b) => format!("create_edge({})", se(&(*a, t.clone(), *b))),
        Op::Delete(q) => format!("delete({})", qtext(q)),
        Op::Set(q, n, v) => format!("set({},{},{})", qtext(q), sn(n), v.0),
        Op::Bulk(items) => format!("bulk[{}]", items.iter().map(item_text).collect::<Vec<_>>().join("; ")),
        Op::Index(n) => format!("index({})", sn(n)),
        Op::Get(q) => format!("get({})", qtext(q)),
        Op::Sync => "sync".into(),
        Op::Reopen => "reopen".into(),
        Op::ReopenAs(w) => format!("reopen[{}]", WAYS[*w]),
        Op::Plug(o) => format!("plugin:{}", optext(o)),
    }
}

pub fn optexts(ops: &[Op]) -> String {
    ops.iter().map(optext).collect::<Vec<_>>().join("; ")
}

// ---- small query constructors (unchecked, straight structs) ------------------

pub fn q_v(id: Uuid) -> Query {
    Query::SpecificVertex(indradb::SpecificVertexQuery { ids: vec![id] })
}
pub fn q_vs(ids: &[Uuid]) -> Query {
    Query::SpecificVertex(indradb::SpecificVertexQuery { ids: ids.to_vec() })
}
pub fn q_e(e: &EKey) -> Query {
    Query::SpecificEdge(indradb::SpecificEdgeQuery { edges: vec![edge_of(e)] })
}
pub fn q_es(es: &[EKey]) -> Query {
    Query::SpecificEdge(indradb::SpecificEdgeQuery { edges: es.iter().map(edge_of).collect() })
}
pub fn q_pipe(q: Query, out: bool, t: Option<&str>, limit: u32) -> Query {
    Query::Pipe(indradb::PipeQuery {
        inner: Box::new(q),
        direction: if out { indradb::EdgeDirection::Outbound } else { indradb::EdgeDirection::Inbound },
        limit,
        t: t.map(ident),
    })
}
pub fn q_props(q: Query, n: Option<&str>) -> Query {
    Query::PipeProperty(indradb::PipePropertyQuery { inner: Box::new(q), name: n.map(ident) })
}
pub fn q_count(q: Query) -> Query {
    Query::Count(indradb::CountQuery { inner: Box::new(q) })
}
pub fn q_incl(q: Query) -> Query {
    Query::Include(indradb::IncludeQuery { inner: Box::new(q) })
}
pub fn q_range(start: Option<Uuid>, t: Option<&str>, limit: u32) -> Query {
    Query::RangeVertex(indradb::RangeVertexQuery { limit, t: t.map(ident), start_id: start })
}
pub fn q_vhas(n: &str) -> Query {
    Query::VertexWithPropertyPresence(indradb::VertexWithPropertyPresenceQuery { name: ident(n) })
}
pub fn q_veq(n: &str, v: &Json) -> Query {
    Query::VertexWithPropertyValue(indradb::VertexWithPropertyValueQuery { name: ident(n), value: v.clone() })
}
pub fn q_ehas(n: &str) -> Query {
    Query::EdgeWithPropertyPresence(indradb::EdgeWithPropertyPresenceQuery { name: ident(n) })
}
pub fn q_eeq(n: &str, v: &Json) -> Query {
    Query::EdgeWithPropertyValue(indradb::EdgeWithPropertyValueQuery { name: ident(n), value: v.clone() })
}
pub fn q_has(q: Query, n: &str, exists: bool) -> Query {
    Query::PipeWithPropertyPresence(indradb::PipeWithPropertyPresenceQuery { inner: Box::new(q), name: ident(n), exists })
}
pub fn q_eq(q: Query, n: &str, v: &Json, equal: bool) -> Query {
    Query::PipeWithPropertyValue(indradb::PipeWithPropertyValueQuery { inner: Box::new(q), name: ident(n), value: v.clone(), equal })
}

// ---- renaming of property names ---------------------------------------------

pub fn rename_query(q: &Query, f: &dyn Fn(&str) -> String) -> Query {
    let r = |n: &Identifier| ident(&f(n.as_str()));
    let mut q = match inner(q) {
        Some(i) => with_inner(q, rename_query(i, f)),
        None => q.clone(),
    };
    match &mut q {
        Query::VertexWithPropertyPresence(p) => p.name = r(&p.name),
        Query::VertexWithPropertyValue(p) => p.name = r(&p.name),
        Query::EdgeWithPropertyPresence(p) => p.name = r(&p.name),
        Query::EdgeWithPropertyValue(p) => p.name = r(&p.name),
        Query::PipeProperty(p) => p.name = p.name.map(|n| r(&n)),
        Query::PipeWithPropertyPresence(p) => p.name = r(&p.name),
        Query::PipeWithPropertyValue(p) => p.name = r(&p.name),
        _ => {}
    }
    q
}

pub fn rename_op(op: &Op, f: &dyn Fn(&str) -> String) -> Op {
    match op {
        Op::Delete(q) => Op::Delete(rename_query(q, f)),
        Op::Set(q, n, v) => Op::Set(rename_query(q, f), f(n), v.clone()),
        Op::Index(n) => Op::Index(f(n)),
        Op::Get(q) => Op::Get(rename_query(q, f)),
        Op::Plug(o) => Op::Plug(Box::new(rename_op(o, f))),
        Op::Bulk(items) => Op::Bulk(
            items
                .iter()
                .map(|i| match i {
                    BulkInsertItem::VertexProperty(id, n, v) => {
                        BulkInsertItem::VertexProperty(*id, ident(&f(n.as_str())), v.clone())
                    }
                    BulkInsertItem::EdgeProperty(e, n, v) => {
                        BulkInsertItem::EdgeProperty(e.clone(), ident(&f(n.as_str())), v.clone())
                    }
                    x => x.clone(),
                })
                .collect(),
        ),
        x => x.clone(),
    }
}
