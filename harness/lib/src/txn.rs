//! C29: the transaction interface of both stores, used directly; and C30: the
//! database over a datastore of the harness's own, which can be made to fail
//! at every call and at every item it hands out.

use indradb::{
    Database, Datastore, DynIter, Edge, EdgeDirection, EdgeProperties, Error, Identifier, Json, MemoryDatastore,
    NamedProperty, Query, QueryOutputValue, RocksdbDatastore, Transaction, Vertex, VertexProperties,
};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{catch, Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::{Arc, Mutex, MutexGuard};
use uuid::Uuid;

type Parts = Vec<Box<dyn Part>>;
const M: u32 = u32::MAX;

// ---- evaluating queries by a transaction ----------------------------------------

type Tx<D> = <D as Datastore>::Transaction<'static>;

/// The interface wants borrows as long as the transaction's life; everything
/// borrowed here is dropped before the transaction is used again.
fn st<T>(t: &T) -> &'static T {
    unsafe { &*(t as *const T) }
}
fn tx(e: Error) -> String {
    err_text(&e)
}
fn all<T>(i: DynIter<T>) -> Result<Vec<T>, String> {
    i.collect::<Result<Vec<T>, Error>>().map_err(tx)
}
fn indexed<T>(i: Option<DynIter<T>>) -> Result<Vec<T>, String> {
    all(i.ok_or("NotIndexed")?)
}

fn eval<T: Transaction<'static> + 'static>(t: &T, q: &Query, out: &mut Vec<QueryOutputValue>) -> Result<QueryOutputValue, String> {
    use QueryOutputValue as O;
    let t = st(t);
    let bad = || Err("OperationOnQuery".to_string());
    let of = |x: &Option<Identifier>, y: &Identifier| x.as_ref().map_or(true, |x| x == y);
    let input = match inner(q) {
        Some(i) => Some(eval(t, i, out)?),
        None => None,
    };
    let r = match (q, &input) {
        (Query::AllVertex, _) => O::Vertices(all(t.all_vertices().map_err(tx)?)?),
        (Query::RangeVertex(r), _) => {
            let v = all(t.range_vertices(r.start_id.unwrap_or(Uuid::nil())).map_err(tx)?)?;
            O::Vertices(v.into_iter().filter(|v| of(&r.t, &v.t)).take(r.limit as usize).collect())
        }
        (Query::SpecificVertex(s), _) => O::Vertices(all(t.specific_vertices(s.ids.clone()).map_err(tx)?)?),
        (Query::VertexWithPropertyPresence(p), _) => {
            let ids = indexed(t.vertex_ids_with_property(p.name).map_err(tx)?)?;
            O::Vertices(all(t.specific_vertices(ids).map_err(tx)?)?)
        }
        (Query::VertexWithPropertyValue(p), _) => {
            let ids = indexed(t.vertex_ids_with_property_value(p.name, &p.value).map_err(tx)?)?;
            O::Vertices(all(t.specific_vertices(ids).map_err(tx)?)?)
        }
        (Query::AllEdge, _) => O::Edges(all(t.all_edges().map_err(tx)?)?),
        (Query::SpecificEdge(s), _) => O::Edges(all(t.specific_edges(s.edges.clone()).map_err(tx)?)?),
        (Query::EdgeWithPropertyPresence(p), _) => O::Edges(indexed(t.edges_with_property(p.name).map_err(tx)?)?),
        (Query::EdgeWithPropertyValue(p), _) => O::Edges(indexed(t.edges_with_property_value(p.name, &p.value).map_err(tx)?)?),
        (Query::Pipe(p), Some(O::Edges(es))) => {
            let ids = es.iter().map(|e| if p.direction == EdgeDirection::Outbound { e.outbound_id } else { e.inbound_id }).collect();
            let v = all(t.specific_vertices(ids).map_err(tx)?)?;
            O::Vertices(v.into_iter().filter(|v| of(&p.t, &v.t)).take(p.limit as usize).collect())
        }
        (Query::Pipe(p), Some(O::Vertices(vs))) => {
            let out = p.direction == EdgeDirection::Outbound;
            let mut es = vec![];
            for v in vs {
                let from = Edge::new(v.id, p.t.unwrap_or_default(), Uuid::nil());
                let i = if out { t.range_edges(from) } else { t.range_reversed_edges(from) }.map_err(tx)?;
                for e in i {
                    let e = e.map_err(tx)?;
                    if e.outbound_id != v.id {
                        break;
                    }
                    if of(&p.t, &e.t) {
                        es.push(if out { e } else { e.reversed() });
                    }
                }
            }
            es.truncate(p.limit as usize);
            O::Edges(es)
        }
        (Query::PipeProperty(p), Some(O::Vertices(vs))) => {
            let mut r = vec![];
            for v in vs {
                let ps = match p.name {
                    Some(n) => t.vertex_property(v, n).map_err(tx)?.into_iter().map(|x| (n, x)).collect(),
                    None => all(t.all_vertex_properties_for_vertex(v).map_err(tx)?)?,
                };
                if !ps.is_empty() {
                    r.push(VertexProperties::new(v.clone(), ps.into_iter().map(|(n, x)| NamedProperty::new(n, x)).collect()));
                }
            }
            O::VertexProperties(r)
        }
        (Query::PipeProperty(p), Some(O::Edges(es))) => {
            let mut r = vec![];
            for e in es {
                let ps = match p.name {
                    Some(n) => t.edge_property(e, n).map_err(tx)?.into_iter().map(|x| (n, x)).collect(),
                    None => all(t.all_edge_properties_for_edge(e).map_err(tx)?)?,
                };
                if !ps.is_empty() {
                    r.push(EdgeProperties::new(e.clone(), ps.into_iter().map(|(n, x)| NamedProperty::new(n, x)).collect()));
                }
            }
            O::EdgeProperties(r)
        }
        (Query::PipeWithPropertyPresence(p), Some(O::Vertices(vs))) => {
            let ids: HashSet<Uuid> = indexed(t.vertex_ids_with_property(p.name).map_err(tx)?)?.into_iter().collect();
            O::Vertices(vs.iter().filter(|v| ids.contains(&v.id) == p.exists).cloned().collect())
        }
        (Query::PipeWithPropertyPresence(p), Some(O::Edges(es))) => {
            let with: HashSet<Edge> = indexed(t.edges_with_property(p.name).map_err(tx)?)?.into_iter().collect();
            O::Edges(es.iter().filter(|e| with.contains(e) == p.exists).cloned().collect())
        }
        (Query::PipeWithPropertyValue(p), Some(O::Vertices(vs))) => {
            let ids: HashSet<Uuid> = indexed(t.vertex_ids_with_property_value(p.name, &p.value).map_err(tx)?)?.into_iter().collect();
            O::Vertices(vs.iter().filter(|v| ids.contains(&v.id) == p.equal).cloned().collect())
        }
        (Query::PipeWithPropertyValue(p), Some(O::Edges(es))) => {
            let with: HashSet<Edge> = indexed(t.edges_with_property_value(p.name, &p.value).map_err(tx)?)?.into_iter().collect();
            O::Edges(es.iter().filter(|e| with.contains(e) == p.equal).cloned().collect())
        }
        (Query::Include(_), Some(i)) => i.clone(),
        (Query::Count(c), Some(i)) => O::Count(match (&*c.inner, i) {
            (Query::AllVertex, _) => t.vertex_count(),
            (Query::AllEdge, _) => t.edge_count(),
            (_, O::Vertices(v)) => v.len() as u64,
            (_, O::Edges(v)) => v.len() as u64,
            (_, O::VertexProperties(v)) => v.len() as u64,
            (_, O::EdgeProperties(v)) => v.len() as u64,
            _ => return bad(),
        }),
        _ => return bad(),
    };
    if matches!(inner(q), Some(Query::Include(_))) && !matches!(q, Query::Include(_)) {
        out.extend(input);
    }
    Ok(r)
}

fn unit(r: Result<(), Error>) -> Ans {
    match r {
        Ok(()) => Ans::Ok,
        Err(e) => Ans::Err(tx(e)),
    }
}
fn created(r: Result<bool, Error>) -> Ans {
    match r {
        Ok(b) => Ans::Created(b),
        Err(e) => Ans::Err(tx(e)),
    }
}

/// Carries out an operation by the transaction's own methods. What is to be
/// deleted is named as in the operation, whether it exists or not.
pub(crate) fn perform<T: Transaction<'static> + 'static>(t: &mut T, op: &Op) -> Result<Ans, String> {
    use QueryOutputValue as O;
    let select = |t: &T, q: &Query| {
        let mut out = vec![];
        eval(t, q, &mut out)
    };
    // The plain forms, not looked up first.
    fn named(q: &Query) -> Option<(&[Uuid], &[Edge])> {
        match q {
            Query::SpecificVertex(s) => Some((&s.ids, &[])),
            Query::SpecificEdge(s) => Some((&[], &s.edges)),
            _ => None,
        }
    }
    Ok(match op {
        Op::CreateVertex(id, ty) => created(t.create_vertex(&vertex(*id, ty))),
        Op::CreateEdge(a, ty, b) => created(t.create_edge(&edge_of(&(*a, ty.clone(), *b)))),
        Op::Delete(Query::SpecificVertex(s)) => {
            let known = all(st(t).specific_vertices(s.ids.clone()).map_err(tx)?)?;
            let ty = |i: &Uuid| known.iter().find(|v| v.id == *i).map_or(ident("x"), |v| v.t);
            let vs = s.ids.iter().map(|i| Vertex::with_id(*i, ty(i))).collect();
            unit(t.delete_vertices(vs))
        }
        Op::Delete(Query::SpecificEdge(s)) => unit(t.delete_edges(s.edges.clone())),
        Op::Delete(Query::PipeProperty(p)) if p.name.is_some() && named(&p.inner).is_some() => {
            let (n, (ids, es)) = (p.name.unwrap(), named(&p.inner).unwrap());
            match t.delete_vertex_properties(ids.iter().map(|i| (*i, n)).collect()) {
                Ok(()) => unit(t.delete_edge_properties(es.iter().map(|e| (e.clone(), n)).collect())),
                Err(e) => Ans::Err(tx(e)),
            }
        }
        Op::Delete(q) => match select(t, q)? {
            O::Vertices(vs) => unit(t.delete_vertices(vs)),
            O::Edges(es) => unit(t.delete_edges(es)),
            O::VertexProperties(ps) => {
                unit(t.delete_vertex_properties(ps.iter().flat_map(|p| p.props.iter().map(|x| (p.vertex.id, x.name))).collect()))
            }
            O::EdgeProperties(ps) => {
                unit(t.delete_edge_properties(ps.iter().flat_map(|p| p.props.iter().map(|x| (p.edge.clone(), x.name))).collect()))
            }
            O::Count(_) => Ans::Err("OperationOnQuery".into()),
        },
        Op::Set(q, n, v) => match select(t, q)? {
            O::Vertices(vs) => unit(t.set_vertex_properties(vs.iter().map(|v| v.id).collect(), ident(n), v)),
            O::Edges(es) => unit(t.set_edge_properties(es, ident(n), v)),
            _ => Ans::Err("OperationOnQuery".into()),
        },
        Op::Bulk(items) => unit(t.bulk_insert(items.clone())),
        Op::Index(n) => unit(t.index_property(ident(n))),
        Op::Get(_) => return Err("harness: get".into()),
        Op::Sync => unit(t.sync()),
        Op::Reopen | Op::ReopenAs(_) => Ans::Ok,
        Op::Plug(o) => return perform(t, o),
    })
}

/// Every method that reads, with every argument of interest.
fn inspect<T: Transaction<'static> + 'static>(t: &T, m: &Model, u: &Universe) -> Result<u64, String> {
    let t = st(t);
    let mut n = 0u64;
    let mut same = |what: &dyn Fn() -> String, ok: bool| {
        n += 1;
        if ok {
            Ok(())
        } else {
            Err(what())
        }
    };
    let ty = |i: &Uuid| ident(m.vertices.get(i).map_or("x", |t| t));
    let mut ids: BTreeSet<Uuid> = [Uuid::nil(), Uuid::max()].into();
    for i in m.vertices.keys().chain(&u.ids) {
        ids.insert(*i);
        ids.insert(Uuid::from_u128(i.as_u128().wrapping_add(1)));
        ids.insert(Uuid::from_u128(i.as_u128().wrapping_sub(1)));
    }
    // Vertices
    let vs = |x: Vec<Vertex>| x.iter().map(|v| (v.id, v.t.to_string())).collect::<Vec<_>>();
    let sorted = |mut x: Vec<(Uuid, String)>| {
        x.sort();
        x
    };
    let want: Vec<(Uuid, String)> = m.vertices.iter().map(|(i, t)| (*i, t.clone())).collect();
    let got = t.vertex_count();
    same(&|| format!("vertex_count: {got}, expected {}", want.len()), got == want.len() as u64)?;
    let got = vs(all(t.all_vertices().map_err(tx)?)?);
    same(&|| format!("all_vertices: {got:?}, expected {want:?}"), sorted(got.clone()) == want)?;
    for i in &ids {
        let got = vs(all(t.range_vertices(*i).map_err(tx)?)?);
        let w: Vec<_> = want.iter().filter(|v| v.0 >= *i).cloned().collect();
        same(&|| format!("range_vertices({}): {got:?}, expected {w:?}", sid(*i)), got == w)?;
        let got = vs(all(t.specific_vertices(vec![*i]).map_err(tx)?)?);
        let w: Vec<_> = want.iter().filter(|v| v.0 == *i).cloned().collect();
        same(&|| format!("specific_vertices({}): {got:?}, expected {w:?}", sid(*i)), got == w)?;
    }
    let some: Vec<Uuid> = ids.iter().rev().copied().collect();
    let got = sorted(vs(all(t.specific_vertices(some).map_err(tx)?)?));
    same(&|| format!("specific_vertices of many: {got:?}, expected {want:?}"), got == want)?;
    let got = vs(all(t.specific_vertices(vec![]).map_err(tx)?)?);
    same(&|| format!("specific_vertices of none: {got:?}"), got.is_empty())?;
    // Edges
    let want: Vec<EKey> = m.edges.iter().cloned().collect();
    let got = t.edge_count();
    same(&|| format!("edge_count: {got}, expected {}", want.len()), got == want.len() as u64)?;
    let es = |x: Vec<Edge>| x.iter().map(ek).collect::<Vec<_>>();
    let esorted = |mut x: Vec<EKey>| {
        x.sort();
        x
    };
    let got = esorted(es(all(t.all_edges().map_err(tx)?)?));
    same(&|| format!("all_edges: {got:?}, expected {want:?}"), got == want)?;
    let range = |rev: bool, e: &EKey| -> Result<Vec<EKey>, String> {
        let o = edge_of(e);
        Ok(es(all(if rev { t.range_reversed_edges(o) } else { t.range_edges(o) }.map_err(tx)?)?))
    };
    for rev in [false, true] {
        let name = if rev { "range_reversed_edges" } else { "range_edges" };
        let w = if rev { esorted(want.iter().map(|e| (e.2, e.1.clone(), e.0)).collect()) } else { want.clone() };
        let l = range(rev, &(Uuid::nil(), String::new(), Uuid::nil()))?;
        same(&|| format!("{name}: {l:?}, expected {w:?}"), esorted(l.clone()) == w)?;
        // By first id; then by type, each in one piece; then by second id.
        let mut groups: Vec<(Uuid, String)> = vec![];
        let mut ok = true;
        for (k, e) in l.iter().enumerate() {
            let g = (e.0, e.1.clone());
            if groups.last() == Some(&g) {
                ok &= l[k - 1].2 < e.2;
            } else {
                ok &= !groups.contains(&g) && groups.last().map_or(true, |h| h.0 <= g.0);
                groups.push(g);
            }
        }
        same(&|| format!("{name}: not in order: {l:?}"), ok)?;
        // What is at or after an offset in that order.
        let mut offsets: Vec<(EKey, usize)> = vec![];
        for (k, e) in l.iter().enumerate() {
            offsets.push((e.clone(), k));
            if e.2 != Uuid::max() {
                offsets.push(((e.0, e.1.clone(), Uuid::from_u128(e.2.as_u128() + 1)), k + 1));
            }
            let first = l.iter().position(|x| x.0 == e.0 && x.1 == e.1).unwrap();
            offsets.push(((e.0, e.1.clone(), Uuid::nil()), first));
        }
        for i in &ids {
            let first = l.iter().position(|x| x.0 >= *i).unwrap_or(l.len());
            offsets.push(((*i, String::new(), Uuid::nil()), first));
        }
        for (o, k) in offsets {
            let got = range(rev, &o)?;
            same(&|| format!("{name}({}): {got:?}, expected {:?}", se(&o), &l[k..]), got == l[k..])?;
        }
    }
    let mut probes: BTreeSet<EKey> = want.iter().cloned().collect();
    let types: Vec<String> = want.iter().map(|e| e.1.clone()).chain(u.etypes.iter().cloned()).collect::<BTreeSet<_>>().into_iter().take(3).collect();
    for a in &u.ids {
        for t in &types {
            for b in &u.ids {
                probes.insert((*a, t.clone(), *b));
            }
        }
    }
    for e in &probes {
        let got = es(all(t.specific_edges(vec![edge_of(e)]).map_err(tx)?)?);
        same(&|| format!("specific_edges({}): {got:?}", se(e)), got == if m.edges.contains(e) { vec![e.clone()] } else { vec![] })?;
    }
    let got = esorted(es(all(t.specific_edges(probes.iter().rev().map(edge_of).collect()).map_err(tx)?)?));
    same(&|| format!("specific_edges of many: {got:?}, expected {want:?}"), got == want)?;
    // Properties and indexes
    let names: BTreeSet<String> = u.names.iter().chain(&m.indexed).cloned().chain(["zz".to_string()]).collect();
    for name in &names {
        let i = ident(name);
        let isx = m.indexed.contains(name);
        let vhave = |v: Option<&Json>| -> Vec<Uuid> {
            let c = v.map(cj);
            m.vprops.iter().filter(|((_, n), x)| n == name && c.as_ref().map_or(true, |c| c == *x)).map(|((i, _), _)| *i).collect()
        };
        let ehave = |v: Option<&Json>| -> Vec<EKey> {
            let c = v.map(cj);
            m.eprops.iter().filter(|((_, n), x)| n == name && c.as_ref().map_or(true, |c| c == *x)).map(|((e, _), _)| e.clone()).collect()
        };
        let vals: Vec<Option<&Json>> = [None].into_iter().chain(u.vals.iter().map(Some)).collect();
        for v in vals {
            let got = match v {
                None => t.vertex_ids_with_property(i),
                Some(v) => t.vertex_ids_with_property_value(i, v),
            };
            // Ids of vertices that do not exist do not matter.
            let got = got.map_err(tx)?.map(all).transpose()?.map(|mut x| {
                x.retain(|i| m.vertices.contains_key(i));
                x.sort();
                x
            });
            let w = isx.then(|| vhave(v));
            same(&|| format!("vertices with {name}={v:?}: {got:?}, expected {w:?}"), got == w)?;
            let got = match v {
                None => t.edges_with_property(i),
                Some(v) => t.edges_with_property_value(i, v),
            };
            let got = got.map_err(tx)?.map(all).transpose()?.map(|x| esorted(es(x)));
            let w = isx.then(|| ehave(v));
            same(&|| format!("edges with {name}={v:?}: {got:?}, expected {w:?}"), got == w)?;
        }
        for i in m.vertices.keys().chain(&u.ids) {
            if !m.vertices.contains_key(i) && m.orphan_v.keys().any(|k| k.0 == *i) {
                continue;
            }
            let got = t.vertex_property(&Vertex::with_id(*i, ty(i)), ident(name)).map_err(tx)?.as_ref().map(cj);
            let w = m.vprops.get(&(*i, name.clone())).cloned();
            same(&|| format!("vertex_property({},{name}): {got:?}, expected {w:?}", sid(*i)), got == w)?;
        }
        for e in &probes {
            if !m.edges.contains(e) && m.orphan_e.keys().any(|k| k.0 == *e) {
                continue;
            }
            let got = t.edge_property(&edge_of(e), ident(name)).map_err(tx)?.as_ref().map(cj);
            let w = m.eprops.get(&(e.clone(), name.clone())).cloned();
            same(&|| format!("edge_property({},{name}): {got:?}, expected {w:?}", se(e)), got == w)?;
        }
    }
    let props = |x: Vec<(Identifier, Json)>| {
        let mut x: Vec<(String, Val)> = x.iter().map(|(n, v)| (n.to_string(), cj(v))).collect();
        x.sort();
        x
    };
    for i in m.vertices.keys().chain(&u.ids) {
        if !m.vertices.contains_key(i) && m.orphan_v.keys().any(|k| k.0 == *i) {
            continue;
        }
        let got = props(all(t.all_vertex_properties_for_vertex(&Vertex::with_id(*i, ty(i))).map_err(tx)?)?);
        let w: Vec<_> = m.vprops.iter().filter(|((j, _), _)| j == i).map(|((_, n), v)| (n.clone(), v.clone())).collect();
        same(&|| format!("properties of {}: {got:?}, expected {w:?}", sid(*i)), got == w)?;
    }
    for e in &probes {
        if !m.edges.contains(e) && m.orphan_e.keys().any(|k| k.0 == *e) {
            continue;
        }
        let got = props(all(t.all_edge_properties_for_edge(&edge_of(e)).map_err(tx)?)?);
        let w: Vec<_> = m.eprops.iter().filter(|((f, _), _)| f == e).map(|((_, n), v)| (n.clone(), v.clone())).collect();
        same(&|| format!("properties of {}: {got:?}, expected {w:?}", se(e)), got == w)?;
    }
    Ok(n)
}

/// A store used by transactions: one for each call, or one for as long as
/// nothing else needs the store.
struct ByTxn<D: Datastore + 'static> {
    open: RefCell<Option<Tx<D>>>,
    db: Box<Database<D>>,
    long: bool,
    /// Whether the store can be looked at while the transaction is there.
    shared: bool,
    looks: Cell<u32>,
}

impl<D: Datastore + 'static> ByTxn<D>
where
    Tx<D>: Transaction<'static>,
{
    fn new(db: Database<D>, long: bool, shared: bool) -> Self {
        ByTxn { open: RefCell::new(None), db: Box::new(db), long, shared, looks: Cell::new(0) }
    }
    fn with<R>(&self, f: impl FnOnce(&mut Tx<D>) -> R) -> R {
        let mut open = self.open.borrow_mut();
        if open.is_none() {
            // Dropped before the database, which does not move.
            *open = Some(st(&*self.db).datastore.transaction());
        }
        let r = f(open.as_mut().unwrap());
        if !self.long {
            *open = None;
        }
        r
    }
}

impl<D: Datastore + 'static> Handle for ByTxn<D>
where
    Tx<D>: Transaction<'static>,
{
    fn run(&self, op: &Op) -> Ans {
        self.with(|t| perform(t, op)).unwrap_or_else(Ans::Err)
    }
    fn ask(&self, q: Query) -> Result<Vec<QueryOutputValue>, String> {
        self.with(|t| {
            let mut out = vec![];
            let v = eval(t, &q, &mut out)?;
            out.push(v);
            Ok(out)
        })
    }
}
impl<D: Datastore + 'static> Served for ByTxn<D>
where
    Tx<D>: Transaction<'static>,
{
    fn beneath(&self) -> &dyn Handle {
        // The transaction goes on after some of the looks: it reads, then
        // writes, then reads again.
        let n = self.looks.get();
        self.looks.set(n + 1);
        if self.long && self.shared && n % 5 != 4 {
            return &*self.db;
        }
        if self.long && !self.shared && n % 2 == 1 {
            return self;
        }
        *self.open.borrow_mut() = None;
        &*self.db
    }
    fn inspect(&self, m: &Model, u: &Universe) -> Result<u64, String> {
        self.with(|t| inspect(t, m, u))
    }
}

fn serve(s: Store, path: &std::path::Path) -> Result<Box<dyn Served>, String> {
    Ok(match s {
        Store::TxnMem | Store::LongTxnMem => Box::new(ByTxn::<MemoryDatastore>::new(MemoryDatastore::new_db(), s == Store::LongTxnMem, false)),
        Store::TxnRocks | Store::LongTxnRocks => Box::new(ByTxn::<RocksdbDatastore>::new(open_rocks(path)?, s == Store::LongTxnRocks, true)),
        Store::Own => Box::new(OwnDb(Database::new(Plain::default()))),
        _ => return Err("harness: not served here".into()),
    })
}

const TXNS: [Store; 4] = [Store::TxnMem, Store::LongTxnMem, Store::TxnRocks, Store::LongTxnRocks];

pub fn c29(cfg: &Cfg) -> Parts {
    let _ = SERVE.set(serve);
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    for s in TXNS {
        let rocks = s.on_disk();
        p.push(Tree::new(general(s, NIL, MAXID), if t { 3 } else { 2 }));
        p.push(Graph::new(general(s, CARRY, CARRY + 1), if t { 7 } else { 5 }, if t { 3 } else { 1 }));
        // Lists of several elements, of the same twice and of some that are
        // not there.
        let pre = vec![
            cv(1, "x"), cv(2, "y"), cv(MAXID, "x"), ce(1, "t", 2), ce(2, "t", 1), ce(1, "t", 1), ce(1, "tt", MAXID), ce(MAXID, "t", 2),
            index("p"),
            Op::Set(Query::AllVertex, "p".into(), j("1")), Op::Set(Query::AllEdge, "p".into(), j("1")),
            sv(1, "", "[2]"), sv(1, "q", "null"), se_((1, "t", 2), "q", "{}"),
        ];
        let nine = key(9, "t", 1);
        let ops = vec![
            Op::Delete(q_vs(&[id(1), id(9), id(1)])),
            Op::Delete(q_vs(&[id(MAXID), id(2)])),
            Op::Delete(q_vs(&[id(9)])),
            Op::Delete(q_vs(&[])),
            Op::Delete(q_es(&[key(1, "t", 2), nine.clone(), key(1, "t", 2), key(MAXID, "t", 2)])),
            Op::Delete(q_es(&[nine.clone(), key(2, "tt", 1)])),
            Op::Delete(q_props(q_vs(&[id(1), id(9), id(1)]), Some("p"))),
            Op::Delete(q_props(q_vs(&[id(1), id(2)]), Some("none"))),
            Op::Delete(q_props(q_es(&[key(1, "t", 2), nine.clone(), key(1, "t", 1)]), Some("p"))),
            Op::Delete(q_props(Query::AllVertex, None)),
            Op::Set(q_vs(&[id(1), id(2), id(1)]), "p".into(), j("\"2\"")),
            Op::Set(q_es(&[key(1, "t", 2), key(1, "t", 2)]), "q".into(), j("[2]")),
            Op::Set(q_vs(&[]), "p".into(), j("1")),
            Op::Bulk(vec![bv(9, "x"), be(9, "t", 1), be(9, "t", 1), bvp(9, "p", "1"), bep(9, "t", 1, "p", "1"), bvp(1, "p", "2"), bvp(1, "p", "1")]),
            Op::Bulk(vec![]),
            cv(9, "x"), cv(1, "y"), ce(9, "t", 1), ce(1, "t", 9), index("q"), index("p"), Op::Sync,
        ];
        let u = Universe::new(&[1, 2, 9, MAXID], &["x", "y"], &["t", "tt"], &["p", "q", ""], &["1", "\"2\"", "[2]", "null", "{}"]);
        let mut sc = with_prefix(Scope::new("lists", s, ops, u), "lists", pre);
        if rocks {
            // Syncing takes long.
            sc.alphabet.pop();
        }
        p.push(Tree::new(sc, if t { 3 } else { 2 }));
        for indexed in [true, false] {
            p.push(Tree::new(wide(s, indexed), if t { 2 } else { 1 }));
        }
        p.push(views(s, t));
    }
    p
}

/// Every set of up to two edges (thorough: three) over three ids and types that
/// are prefixes of each other, in the order of the store's own.
fn views(s: Store, t: bool) -> Box<dyn Part> {
    let long: String = "l".repeat(255);
    let types = ["", "a", "ab", "b", "é", &long];
    let ids = [NIL, CARRY, CARRY + 1];
    let mut edges = vec![];
    for a in ids {
        for t in &types {
            for b in ids {
                edges.push((a, *t, b));
            }
        }
    }
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..edges.len() {
        for b in a + 1..edges.len() {
            sets.push(vec![a, b]);
            if t {
                sets.extend((b + 1..edges.len()).filter(|c| (a + b + c) % 7 == 0).map(|c| vec![a, b, c]));
            }
        }
    }
    sets.push((0..edges.len()).collect());
    let mut seqs = vec![];
    for set in &sets {
        let mut ops: Vec<Op> = ids.iter().map(|i| cv(*i, "x")).collect();
        ops.push(Op::Bulk(set.iter().map(|k| be(edges[*k].0, edges[*k].1, edges[*k].2)).collect()));
        ops.push(dv(ids[set.len() % 3]));
        seqs.push(ops);
    }
    let u = Universe { ids: ids.iter().map(|i| id(*i)).collect(), etypes: strs(&types), ..Universe::default() };
    let mut sc = Scope::new("edge ranges", s, vec![], u);
    sc.observe = Depth::Core;
    sc.prefix = vec![];
    Listed::new(sc, seqs)
}

// ---- a datastore of the harness's own -----------------------------------------------

#[derive(Default)]
struct State {
    vertices: BTreeMap<Uuid, Identifier>,
    edges: BTreeSet<EKey>,
    vprops: BTreeMap<(Uuid, String), Json>,
    eprops: BTreeMap<(EKey, String), Json>,
    indexed: BTreeSet<String>,
}

/// What happens at the interface.
#[derive(Default)]
struct Plan {
    calls: Vec<&'static str>,
    /// Transactions begun, and the one of each call.
    begun: u64,
    by: Vec<u64>,
    fail_at: Option<usize>,
    failed: bool,
}

/// Implements only what the interface requires; lists in orders of its own
/// where none is promised.
#[derive(Default, Clone)]
struct Plain {
    state: Arc<Mutex<State>>,
    plan: Arc<Mutex<Plan>>,
}

struct PlainTxn<'a> {
    s: MutexGuard<'a, State>,
    plan: Arc<Mutex<Plan>>,
    no: u64,
}

fn injected(n: usize) -> String {
    format!("injected at {n}")
}

impl PlainTxn<'_> {
    fn tick(&self, what: &'static str) -> Result<(), Error> {
        tick(&self.plan, self.no, what)
    }
    fn give<'b, T: 'b>(&'b self, what: &'static str, items: Vec<T>) -> Result<DynIter<'b, T>, Error> {
        self.tick(what)?;
        let (plan, no) = (self.plan.clone(), self.no);
        Ok(Box::new(items.into_iter().map(move |x| tick(&plan, no, "item").map(|_| x))))
    }
    fn edges_from(&self, rev: bool, offset: &Edge) -> Vec<Edge> {
        // Types by length first, longest last.
        let k = |e: &EKey| (e.0, e.1.len(), e.1.clone(), e.2);
        let mut v: Vec<EKey> = self.s.edges.iter().map(|e| if rev { (e.2, e.1.clone(), e.0) } else { e.clone() }).collect();
        v.sort_by_key(k);
        v.retain(|e| k(e) >= k(&ek(offset)));
        v.iter().map(edge_of).collect()
    }
    fn drop_edge(&mut self, e: &EKey) {
        self.s.edges.remove(e);
        self.s.eprops.retain(|k, _| k.0 != *e);
    }
}

fn tick(plan: &Mutex<Plan>, no: u64, what: &'static str) -> Result<(), Error> {
    let mut p = plan.lock().unwrap();
    let n = p.calls.len();
    p.calls.push(what);
    p.by.push(no);
    if p.fail_at == Some(n) {
        p.failed = true;
        return Err(Error::Datastore(injected(n).into()));
    }
    Ok(())
}

impl<'a> Transaction<'a> for PlainTxn<'a> {
    fn vertex_count(&self) -> u64 {
        self.s.vertices.len() as u64
    }
    fn all_vertices(&'a self) -> Result<DynIter<'a, Vertex>, Error> {
        self.range_vertices(Uuid::nil())
    }
    fn range_vertices(&'a self, offset: Uuid) -> Result<DynIter<'a, Vertex>, Error> {
        self.give("range_vertices", self.s.vertices.range(offset..).map(|(i, t)| Vertex::with_id(*i, *t)).collect())
    }
    fn specific_vertices(&'a self, ids: Vec<Uuid>) -> Result<DynIter<'a, Vertex>, Error> {
        self.give("specific_vertices", ids.iter().filter_map(|i| self.s.vertices.get(i).map(|t| Vertex::with_id(*i, *t))).collect())
    }
    fn vertex_ids_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Uuid>>, Error> {
        let v = self.s.vprops.keys().rev().filter(|k| k.1 == name.as_str()).map(|k| k.0).collect();
        let i = self.give("vertex_ids_with_property", v)?;
        Ok(self.s.indexed.contains(name.as_str()).then_some(i))
    }
    fn vertex_ids_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Uuid>>, Error> {
        let v = self.s.vprops.iter().rev().filter(|(k, v)| k.1 == name.as_str() && cj(v) == cj(value)).map(|(k, _)| k.0).collect();
        let i = self.give("vertex_ids_with_property_value", v)?;
        Ok(self.s.indexed.contains(name.as_str()).then_some(i))
    }
    fn edge_count(&self) -> u64 {
        self.s.edges.len() as u64
    }
    fn all_edges(&'a self) -> Result<DynIter<'a, Edge>, Error> {
        self.give("all_edges", self.s.edges.iter().rev().map(edge_of).collect())
    }
    fn range_edges(&'a self, offset: Edge) -> Result<DynIter<'a, Edge>, Error> {
        self.give("range_edges", self.edges_from(false, &offset))
    }
    fn range_reversed_edges(&'a self, offset: Edge) -> Result<DynIter<'a, Edge>, Error> {
        self.give("range_reversed_edges", self.edges_from(true, &offset))
    }
    fn specific_edges(&'a self, edges: Vec<Edge>) -> Result<DynIter<'a, Edge>, Error> {
        self.give("specific_edges", edges.into_iter().filter(|e| self.s.edges.contains(&ek(e))).collect())
    }
    fn edges_with_property(&'a self, name: Identifier) -> Result<Option<DynIter<'a, Edge>>, Error> {
        let v = self.s.eprops.keys().rev().filter(|k| k.1 == name.as_str()).map(|k| edge_of(&k.0)).collect();
        let i = self.give("edges_with_property", v)?;
        Ok(self.s.indexed.contains(name.as_str()).then_some(i))
    }
    fn edges_with_property_value(&'a self, name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>, Error> {
        let v = self.s.eprops.iter().rev().filter(|(k, v)| k.1 == name.as_str() && cj(v) == cj(value)).map(|(k, _)| edge_of(&k.0)).collect();
        let i = self.give("edges_with_property_value", v)?;
        Ok(self.s.indexed.contains(name.as_str()).then_some(i))
    }
    fn vertex_property(&self, vertex: &Vertex, name: Identifier) -> Result<Option<Json>, Error> {
        self.tick("vertex_property")?;
        Ok(self.s.vprops.get(&(vertex.id, name.to_string())).cloned())
    }
    fn all_vertex_properties_for_vertex(&'a self, vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>, Error> {
        let v = self.s.vprops.iter().rev().filter(|(k, _)| k.0 == vertex.id).map(|(k, v)| (ident(&k.1), v.clone())).collect();
        self.give("all_vertex_properties_for_vertex", v)
    }
    fn edge_property(&self, edge: &Edge, name: Identifier) -> Result<Option<Json>, Error> {
        self.tick("edge_property")?;
        Ok(self.s.eprops.get(&(ek(edge), name.to_string())).cloned())
    }
    fn all_edge_properties_for_edge(&'a self, edge: &Edge) -> Result<DynIter<'a, (Identifier, Json)>, Error> {
        let v = self.s.eprops.iter().rev().filter(|(k, _)| k.0 == ek(edge)).map(|(k, v)| (ident(&k.1), v.clone())).collect();
        self.give("all_edge_properties_for_edge", v)
    }
    fn delete_vertices(&mut self, vertices: Vec<Vertex>) -> Result<(), Error> {
        self.tick("write: delete_vertices")?;
        for v in vertices {
            self.s.vertices.remove(&v.id);
            self.s.vprops.retain(|k, _| k.0 != v.id);
            let dead: Vec<EKey> = self.s.edges.iter().filter(|e| e.0 == v.id || e.2 == v.id).cloned().collect();
            dead.iter().for_each(|e| self.drop_edge(e));
        }
        Ok(())
    }
    fn delete_edges(&mut self, edges: Vec<Edge>) -> Result<(), Error> {
        self.tick("write: delete_edges")?;
        edges.iter().for_each(|e| self.drop_edge(&ek(e)));
        Ok(())
    }
    fn delete_vertex_properties(&mut self, props: Vec<(Uuid, Identifier)>) -> Result<(), Error> {
        self.tick("write: delete_vertex_properties")?;
        for (i, n) in props {
            self.s.vprops.remove(&(i, n.to_string()));
        }
        Ok(())
    }
    fn delete_edge_properties(&mut self, props: Vec<(Edge, Identifier)>) -> Result<(), Error> {
        self.tick("write: delete_edge_properties")?;
        for (e, n) in props {
            self.s.eprops.remove(&(ek(&e), n.to_string()));
        }
        Ok(())
    }
    fn create_vertex(&mut self, vertex: &Vertex) -> Result<bool, Error> {
        self.tick("write: create_vertex")?;
        let new = !self.s.vertices.contains_key(&vertex.id);
        self.s.vertices.entry(vertex.id).or_insert(vertex.t);
        Ok(new)
    }
    fn create_edge(&mut self, edge: &Edge) -> Result<bool, Error> {
        self.tick("write: create_edge")?;
        let can = self.s.vertices.contains_key(&edge.outbound_id) && self.s.vertices.contains_key(&edge.inbound_id);
        if can {
            self.s.edges.insert(ek(edge));
        }
        Ok(can)
    }
    fn index_property(&mut self, name: Identifier) -> Result<(), Error> {
        self.tick("write: index_property")?;
        self.s.indexed.insert(name.to_string());
        Ok(())
    }
    fn set_vertex_properties(&mut self, vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<(), Error> {
        self.tick("write: set_vertex_properties")?;
        for i in vertices {
            if self.s.vertices.contains_key(&i) {
                self.s.vprops.insert((i, name.to_string()), value.clone());
            }
        }
        Ok(())
    }
    fn set_edge_properties(&mut self, edges: Vec<Edge>, name: Identifier, value: &Json) -> Result<(), Error> {
        self.tick("write: set_edge_properties")?;
        for e in edges {
            if self.s.edges.contains(&ek(&e)) {
                self.s.eprops.insert((ek(&e), name.to_string()), value.clone());
            }
        }
        Ok(())
    }
}

impl Datastore for Plain {
    type Transaction<'a> = PlainTxn<'a>;
    fn transaction(&self) -> PlainTxn<'_> {
        let mut p = self.plan.lock().unwrap();
        p.begun += 1;
        let no = p.begun;
        drop(p);
        PlainTxn { s: self.state.lock().unwrap(), plan: self.plan.clone(), no }
    }
}

struct OwnDb(Database<Plain>);
impl Handle for OwnDb {
    fn run(&self, op: &Op) -> Ans {
        match (op, self.0.run(op)) {
            // Not offered by this datastore.
            (Op::Sync, Ans::Err(e)) if e == "Unsupported" => Ans::Ok,
            (Op::Sync, a) => Ans::Err(format!("sync of a datastore that does not support it: {a:?}")),
            (_, a) => a,
        }
    }
    fn ask(&self, q: Query) -> Result<Vec<QueryOutputValue>, String> {
        Handle::ask(&self.0, q)
    }
}
impl Served for OwnDb {
    fn beneath(&self) -> &dyn Handle {
        &self.0
    }
}

/// Everything there is, in text.
fn contents(d: &Plain) -> String {
    let s = d.state.lock().unwrap();
    format!(
        "{:?} {:?} {:?} {:?} {:?}",
        s.vertices.iter().map(|(i, t)| (sid(*i), t.to_string())).collect::<Vec<_>>(),
        s.edges.iter().map(se).collect::<Vec<_>>(),
        s.vprops.iter().map(|((i, n), v)| (sid(*i), n, cj(v))).collect::<Vec<_>>(),
        s.eprops.iter().map(|((e, n), v)| (se(e), n, cj(v))).collect::<Vec<_>>(),
        s.indexed
    )
}

fn full_err(e: &Error) -> String {
    match e {
        Error::Datastore(e) => e.to_string(),
        e => err_text(e),
    }
}

/// The operation's answer, with the datastore's own error in full.
fn answer(db: &Database<Plain>, op: &Op) -> Result<String, String> {
    match op {
        Op::CreateVertex(id, t) => db.create_vertex(&vertex(*id, t)).map(|b| b.to_string()),
        Op::CreateEdge(a, t, b) => db.create_edge(&edge_of(&(*a, t.clone(), *b))).map(|b| b.to_string()),
        Op::Delete(q) => db.delete(q.clone()).map(|_| String::new()),
        Op::Set(q, n, v) => db.set_properties(q.clone(), ident(n), v).map(|_| String::new()),
        Op::Bulk(items) => db.bulk_insert(items.clone()).map(|_| String::new()),
        Op::Index(n) => db.index_property(ident(n)).map(|_| String::new()),
        Op::Get(q) => db.get(q.clone()).map(|o| ans_text(&Ans::Out(o.iter().map(|x| mout(x).sorted()).collect()))),
        _ => Ok(String::new()),
    }
    .map_err(|e| full_err(&e))
}

fn at(graph: &[Op], plan: Plan) -> Result<(Database<Plain>, Plain), String> {
    let d = Plain::default();
    let db = Database::new(d.clone());
    for o in graph {
        if let Ans::Err(e) = db.run(o) {
            return Err(format!("{} failed: {e}", optext(o)));
        }
    }
    *d.plan.lock().unwrap() = plan;
    Ok((db, d))
}

/// Runs the operation undisturbed, then with each of the calls it made, and
/// each of the items it was handed, failing.
fn disturbed(graph: &[Op], op: &Op, env: &mut Env) -> Result<(), String> {
    let (db, d) = at(graph, Plan::default())?;
    let before = contents(&d);
    let fine = catch(|| answer(&db, op)).map_err(|p| format!("panic: {p}"))?;
    let after = contents(&d);
    let (n, begun) = {
        let p = d.plan.lock().unwrap();
        if p.by.iter().any(|b| *b != p.by[0]) {
            return Err(format!("used {} transactions ({:?}, by transaction {:?})", p.begun, p.calls, p.by));
        }
        (p.calls.len(), p.begun)
    };
    drop(db);
    for k in 0..n {
        let (db, d) = at(graph, Plan { fail_at: Some(k), ..Plan::default() })?;
        let got = catch(|| answer(&db, op)).map_err(|p| format!("panic with the datastore failing at call {k}: {p}"))?;
        let now = contents(&d);
        let p = d.plan.lock().unwrap();
        let calls = || p.calls.iter().enumerate().map(|(i, c)| if i == k { format!("FAILED {c}") } else { c.to_string() }).collect::<Vec<_>>().join(", ");
        env.count("failing calls and items", 1);
        env.count("transactions", begun);
        // All of it, or the datastore's error and nothing of it.
        if !p.failed || (got == fine && now == after && fine.is_ok()) {
            continue;
        }
        if got.as_ref().err() != Some(&injected(k)) {
            return Err(format!("the datastore failed ({}): answered {got:?}, undisturbed {fine:?}", calls()));
        }
        let bulk = matches!(op, Op::Bulk(_));
        if !bulk && now != before {
            return Err(format!("the datastore failed ({}): the operation failed, yet left {now}, before {before}", calls()));
        }
        if bulk {
            // The default is item by item: those before the failure.
            let Op::Bulk(items) = op else { unreachable!() };
            let (db2, d2) = at(graph, Plan::default())?;
            db2.bulk_insert(items[..p.calls[..k].iter().filter(|c| c.starts_with("write")).count()].to_vec()).map_err(|e| e.to_string())?;
            if contents(&d2) != now {
                return Err(format!("the datastore failed ({}): left {now}, expected {}", calls(), contents(&d2)));
            }
        }
        if p.calls[k + 1..].iter().any(|c| c.starts_with("write")) {
            return Err(format!("the datastore failed, and was written to afterwards ({})", calls()));
        }
    }
    Ok(())
}

pub fn c30(cfg: &Cfg) -> Parts {
    let _ = SERVE.set(serve);
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    // The same answers and effects as from the stores.
    p.push(Tree::new(general(Store::Own, NIL, MAXID), 3));
    p.push(Graph::new(general(Store::Own, CARRY, CARRY + 1), if t { 8 } else { 6 }, if t { 4 } else { 1 }));
    let mut ops = general(Store::Own, 1, 2).alphabet;
    ops.extend([
        Op::Sync,
        Op::Bulk(vec![bv(1, "x"), bv(2, "x"), be(1, "t", 2), bvp(1, "p", "1"), bep(1, "t", 2, "p", "[2]")]),
        Op::Bulk(vec![be(1, "t", 2), bvp(1, "p", "1"), bv(1, "y"), bvp(1, "p", "\"2\"")]),
        Op::Bulk(vec![]),
        Op::Delete(q_pipe(Query::AllVertex, true, Some("t"), M)),
        Op::Delete(q_pipe(Query::AllEdge, false, Some("x"), M)),
        Op::Delete(Query::AllVertex),
        Op::Delete(q_props(Query::AllVertex, None)),
        Op::Delete(q_props(Query::AllEdge, Some("p"))),
        Op::Delete(q_count(Query::AllVertex)),
        Op::Set(q_count(Query::AllVertex), "p".into(), j("1")),
        Op::Set(q_props(Query::AllVertex, None), "p".into(), j("1")),
    ]);
    p.push(Tree::new(Scope::new("general+", Store::Own, ops, general(Store::Own, 1, 2).uni), if t { 4 } else { 3 }));
    // Every query, on the enumerated graphs; and with the datastore failing.
    let (sources, stages) = (query_sources(true), query_stages(true));
    for (gi, g) in query_graphs().into_iter().enumerate() {
        for depth in 0..=(if t { 3 } else { 2 }) {
            let n = sources.len() as u64 * (stages.len() as u64).pow(depth as u32);
            let (src, stg, g2) = (sources.clone(), stages.clone(), g.clone());
            let (src2, stg2) = (sources.clone(), stages.clone());
            let name = format!("failing datastore/graph{gi}/depth{depth}");
            let nm = name.clone();
            p.push(cases(
                &name,
                n,
                move |i, env: &mut Env| {
                    let q = nth_query(&src, &stg, depth, i);
                    let fail = |what: String, e: String| Fail::new(&format!("{nm} | {what}"), format!("[{nm}] {what}: {e}"));
                    let mut m = Model::default();
                    let (db, _) = at(&g2, Plan::default()).map_err(|e| fail("setup".into(), e))?;
                    for o in &g2 {
                        apply_model(&mut m, o, &db).map_err(|e| fail("setup".into(), e))?;
                    }
                    match catch(|| check_query(&db, &m, &q)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return Err(fail(qtext(&q), e)),
                        Err(e) => return Err(fail(qtext(&q), format!("panic: {e}"))),
                    }
                    env.count("queries compared", 1);
                    let ops = [Op::Get(q.clone()), Op::Delete(q.clone()), Op::Set(q.clone(), "p".into(), j("7"))];
                    for o in if depth == 3 { &ops[..1] } else { &ops[..] } {
                        disturbed(&g2, o, env).map_err(|e| fail(optext(o), e))?;
                        env.count("operations disturbed", 1);
                    }
                    Ok(())
                },
                move |i| qtext(&nth_query(&src2, &stg2, depth, i)),
            ));
        }
        // And the other operations.
        let ops = vec![
            cv(50, "x"), cv(1, "x"), ce(1, "t", 1), ce(1, "t", 99), index("p"), index("r"), Op::Bulk(vec![]),
            Op::Bulk(vec![bv(50, "x"), be(50, "t", 50), bvp(50, "p", "1"), bep(50, "t", 50, "p", "2"), bv(51, "y"), be(51, "t", 50)]),
        ];
        let (o1, o2) = (ops.clone(), ops);
        let name = format!("failing datastore/graph{gi}/other operations");
        let nm = name.clone();
        p.push(cases(
            &name,
            o1.len() as u64,
            move |i, env: &mut Env| {
                let o = &o1[i as usize];
                disturbed(&g, o, env).map_err(|e| Fail::new(&format!("{nm} | {}", optext(o)), format!("[{nm}] {}: {e}", optext(o))))?;
                env.count("operations disturbed", 1);
                Ok(())
            },
            move |i| optext(&o2[i as usize]),
        ));
    }
    p
}
