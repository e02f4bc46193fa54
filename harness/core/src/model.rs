//! The reference model: a plain, boring graph. Deliberately written without
//! looking like the implementation: sets and maps, everything by linear scan.

use indradb::{BulkInsertItem, Edge, EdgeDirection, Identifier, Json, Query, Vertex};
use std::collections::{BTreeMap, BTreeSet};
use uuid::Uuid;

pub type EKey = (Uuid, String, Uuid);
/// A JSON value in canonical text: equal texts are the same value.
pub type Val = String;

/// Canonical, injective text of a JSON value: numbers carry their kind and
/// exact bits, strings are quoted, structure is explicit.
pub fn canon(v: &serde_json::Value) -> Val {
    use serde_json::Value::*;
    match v {
        Null => "null".into(),
        Bool(b) => format!("{b}"),
        Number(n) => {
            if let Some(i) = n.as_i64() {
                format!("i{i}")
            } else if let Some(u) = n.as_u64() {
                format!("i{u}")
            } else {
                format!("f{:016x}", n.as_f64().unwrap().to_bits())
            }
        }
        String(s) => format!("{s:?}"),
        Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        Object(o) => {
            let mut items: Vec<_> = o.iter().map(|(k, v)| format!("{k:?}:{}", canon(v))).collect();
            items.sort();
            format!("{{{}}}", items.join(","))
        }
    }
}

pub fn cj(j: &Json) -> Val {
    canon(&j.0)
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Model {
    pub vertices: BTreeMap<Uuid, String>,
    pub edges: BTreeSet<EKey>,
    pub vprops: BTreeMap<(Uuid, String), Val>,
    pub eprops: BTreeMap<(EKey, String), Val>,
    pub indexed: BTreeSet<String>,
    /// Properties given in bulk to elements that do not exist: whether they
    /// show when the element is created later is left open.
    pub orphan_v: BTreeMap<(Uuid, String), Val>,
    pub orphan_e: BTreeMap<(EKey, String), Val>,
}

pub fn ek(e: &Edge) -> EKey {
    (e.outbound_id, e.t.to_string(), e.inbound_id)
}

pub fn ident(s: &str) -> Identifier {
    Identifier::new(s).expect("harness identifier")
}

pub fn edge_of(k: &EKey) -> Edge {
    Edge::new(k.0, ident(&k.1), k.2)
}

/// One output of a query, as unordered data.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum MOut {
    V(Vec<(Uuid, String)>),
    E(Vec<EKey>),
    VP(Vec<((Uuid, String), Vec<(String, Val)>)>),
    EP(Vec<(EKey, Vec<(String, Val)>)>),
    Count(u64),
}

impl MOut {
    pub fn sorted(mut self) -> Self {
        match &mut self {
            MOut::V(x) => x.sort(),
            MOut::E(x) => x.sort(),
            MOut::VP(x) => {
                x.iter_mut().for_each(|p| p.1.sort());
                x.sort()
            }
            MOut::EP(x) => {
                x.iter_mut().for_each(|p| p.1.sort());
                x.sort()
            }
            MOut::Count(_) => {}
        }
        self
    }
    pub fn len(&self) -> Option<usize> {
        Some(match self {
            MOut::V(x) => x.len(),
            MOut::E(x) => x.len(),
            MOut::VP(x) => x.len(),
            MOut::EP(x) => x.len(),
            MOut::Count(_) => return None,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MErr {
    NotIndexed,
    OperationOnQuery,
}

impl Model {
    // ---- mutations -------------------------------------------------------

    pub fn create_vertex(&mut self, id: Uuid, t: &str) -> bool {
        if self.vertices.contains_key(&id) {
            return false;
        }
        self.vertices.insert(id, t.to_string());
        true
    }

    pub fn create_edge(&mut self, e: &EKey) -> bool {
        if !self.vertices.contains_key(&e.0) || !self.vertices.contains_key(&e.2) {
            return false;
        }
        self.edges.insert(e.clone());
        true
    }

    pub fn delete_edge(&mut self, e: &EKey) {
        self.edges.remove(e);
        for m in [&mut self.eprops, &mut self.orphan_e] {
            let dead: Vec<_> = m.range((e.clone(), String::new())..).map(|(k, _)| k.clone()).take_while(|k| k.0 == *e).collect();
            dead.iter().for_each(|k| {
                m.remove(k);
            });
        }
    }

    pub fn delete_vertex(&mut self, id: Uuid) {
        self.vertices.remove(&id);
        for m in [&mut self.vprops, &mut self.orphan_v] {
            let dead: Vec<_> = m.range((id, String::new())..).map(|(k, _)| k.clone()).take_while(|k| k.0 == id).collect();
            dead.iter().for_each(|k| {
                m.remove(k);
            });
        }
        let dead: Vec<EKey> = self.edges.iter().filter(|e| e.0 == id || e.2 == id).cloned().collect();
        for e in dead {
            self.delete_edge(&e);
        }
    }

    /// Deletes what a query selected (the last output of the query).
    pub fn delete_selected(&mut self, sel: &MOut) -> Result<(), MErr> {
        match sel {
            MOut::V(vs) => vs.iter().for_each(|(id, _)| self.delete_vertex(*id)),
            MOut::E(es) => es.iter().for_each(|e| self.delete_edge(e)),
            MOut::VP(ps) => {
                for ((id, _), props) in ps {
                    for (n, _) in props {
                        self.vprops.remove(&(*id, n.clone()));
                    }
                }
            }
            MOut::EP(ps) => {
                for (e, props) in ps {
                    for (n, _) in props {
                        self.eprops.remove(&(e.clone(), n.clone()));
                    }
                }
            }
            MOut::Count(_) => return Err(MErr::OperationOnQuery),
        }
        Ok(())
    }

    pub fn set_selected(&mut self, sel: &MOut, name: &str, v: &Val) -> Result<(), MErr> {
        match sel {
            MOut::V(vs) => {
                for (id, _) in vs {
                    self.vprops.insert((*id, name.to_string()), v.clone());
                }
            }
            MOut::E(es) => {
                for e in es {
                    self.eprops.insert((e.clone(), name.to_string()), v.clone());
                }
            }
            _ => return Err(MErr::OperationOnQuery),
        }
        Ok(())
    }

    // ---- queries ---------------------------------------------------------

    fn v_has(&self, id: &Uuid, name: &str, val: Option<&Val>) -> bool {
        match self.vprops.get(&(*id, name.to_string())) {
            Some(v) => val.map_or(true, |x| x == v),
            None => false,
        }
    }
    fn e_has(&self, e: &EKey, name: &str, val: Option<&Val>) -> bool {
        match self.eprops.get(&(e.clone(), name.to_string())) {
            Some(v) => val.map_or(true, |x| x == v),
            None => false,
        }
    }

    /// Applies one stage of a query to the result of the previous stage
    /// (`None` for sources). Limits take a prefix of an arbitrary order.
    pub fn stage(&self, q: &Query, input: Option<&MOut>) -> Result<MOut, MErr> {
        let all_v = || self.vertices.iter().map(|(i, t)| (*i, t.clone()));
        let need = |name: &Identifier| {
            if self.indexed.contains(name.as_str()) {
                Ok(())
            } else {
                Err(MErr::NotIndexed)
            }
        };
        Ok(match q {
            Query::AllVertex => MOut::V(all_v().collect()),
            Query::RangeVertex(r) => MOut::V(
                all_v()
                    .filter(|(i, _)| r.start_id.map_or(true, |s| *i >= s))
                    .filter(|(_, t)| r.t.map_or(true, |x| x.as_str() == t))
                    .take(r.limit as usize)
                    .collect(),
            ),
            Query::SpecificVertex(s) => MOut::V(
                s.ids
                    .iter()
                    .filter_map(|i| self.vertices.get(i).map(|t| (*i, t.clone())))
                    .collect(),
            ),
            Query::VertexWithPropertyPresence(p) => {
                need(&p.name)?;
                MOut::V(all_v().filter(|(i, _)| self.v_has(i, p.name.as_str(), None)).collect())
            }
            Query::VertexWithPropertyValue(p) => {
                need(&p.name)?;
                let c = cj(&p.value);
                MOut::V(all_v().filter(|(i, _)| self.v_has(i, p.name.as_str(), Some(&c))).collect())
            }
            Query::AllEdge => MOut::E(self.edges.iter().cloned().collect()),
            Query::SpecificEdge(s) => {
                MOut::E(s.edges.iter().map(ek).filter(|e| self.edges.contains(e)).collect())
            }
            Query::EdgeWithPropertyPresence(p) => {
                need(&p.name)?;
                MOut::E(self.edges.iter().filter(|e| self.e_has(e, p.name.as_str(), None)).cloned().collect())
            }
            Query::EdgeWithPropertyValue(p) => {
                need(&p.name)?;
                let c = cj(&p.value);
                MOut::E(self.edges.iter().filter(|e| self.e_has(e, p.name.as_str(), Some(&c))).cloned().collect())
            }
            Query::Pipe(p) => match input.unwrap() {
                MOut::E(es) => MOut::V(
                    es.iter()
                        .map(|e| if p.direction == EdgeDirection::Outbound { e.0 } else { e.2 })
                        .filter_map(|i| self.vertices.get(&i).map(|t| (i, t.clone())))
                        .filter(|(_, t)| p.t.map_or(true, |x| x.as_str() == t))
                        .take(p.limit as usize)
                        .collect(),
                ),
                MOut::V(vs) => {
                    let mut at: BTreeMap<Uuid, Vec<&EKey>> = BTreeMap::new();
                    for e in &self.edges {
                        let end = if p.direction == EdgeDirection::Outbound { e.0 } else { e.2 };
                        if p.t.map_or(true, |x| x.as_str() == e.1) {
                            at.entry(end).or_default().push(e);
                        }
                    }
                    let mut out = vec![];
                    for (i, _) in vs {
                        out.extend(at.get(i).into_iter().flatten().map(|e| (*e).clone()));
                    }
                    out.truncate(p.limit as usize);
                    MOut::E(out)
                }
                _ => return Err(MErr::OperationOnQuery),
            },
            Query::PipeProperty(p) => {
                let want = |n: &String| p.name.map_or(true, |x| x.as_str() == n);
                match input.unwrap() {
                    MOut::E(es) => MOut::EP(
                        es.iter()
                            .map(|e| {
                                let ps = self.eprops.range((e.clone(), String::new())..).take_while(|((k, _), _)| k == e).filter(|((_, n), _)| want(n));
                                (e.clone(), ps.map(|((_, n), v)| (n.clone(), v.clone())).collect::<Vec<_>>())
                            })
                            .filter(|x| !x.1.is_empty())
                            .collect(),
                    ),
                    MOut::V(vs) => MOut::VP(
                        vs.iter()
                            .map(|v| {
                                let ps = self.vprops.range((v.0, String::new())..).take_while(|((k, _), _)| *k == v.0).filter(|((_, n), _)| want(n));
                                (v.clone(), ps.map(|((_, n), v)| (n.clone(), v.clone())).collect::<Vec<_>>())
                            })
                            .filter(|x| !x.1.is_empty())
                            .collect(),
                    ),
                    _ => return Err(MErr::OperationOnQuery),
                }
            }
            Query::PipeWithPropertyPresence(p) => match input.unwrap() {
                MOut::E(es) => {
                    need(&p.name)?;
                    MOut::E(es.iter().filter(|e| self.e_has(e, p.name.as_str(), None) == p.exists).cloned().collect())
                }
                MOut::V(vs) => {
                    need(&p.name)?;
                    MOut::V(vs.iter().filter(|v| self.v_has(&v.0, p.name.as_str(), None) == p.exists).cloned().collect())
                }
                _ => return Err(MErr::OperationOnQuery),
            },
            Query::PipeWithPropertyValue(p) => {
                let c = cj(&p.value);
                match input.unwrap() {
                    MOut::E(es) => {
                        need(&p.name)?;
                        MOut::E(es.iter().filter(|e| self.e_has(e, p.name.as_str(), Some(&c)) == p.equal).cloned().collect())
                    }
                    MOut::V(vs) => {
                        need(&p.name)?;
                        MOut::V(vs.iter().filter(|v| self.v_has(&v.0, p.name.as_str(), Some(&c)) == p.equal).cloned().collect())
                    }
                    _ => return Err(MErr::OperationOnQuery),
                }
            }
            Query::Include(_) => input.unwrap().clone(),
            Query::Count(_) => match input.unwrap().len() {
                Some(n) => MOut::Count(n as u64),
                None => return Err(MErr::OperationOnQuery),
            },
        })
    }

    /// All outputs of a query, included intermediates first. Where a limit
    /// cuts an unordered stage the choice is arbitrary; callers that need the
    /// exact choice verify stage by stage instead (see `observe::verify`).
    pub fn eval(&self, q: &Query) -> Result<Vec<MOut>, MErr> {
        let mut out = vec![];
        let v = self.eval_into(q, &mut out)?;
        out.push(v);
        Ok(out)
    }

    fn eval_into(&self, q: &Query, out: &mut Vec<MOut>) -> Result<MOut, MErr> {
        match inner(q) {
            None => self.stage(q, None),
            Some(i) => {
                let iv = self.eval_into(i, out)?;
                let r = self.stage(q, Some(&iv))?;
                if matches!(i, Query::Include(_)) && !matches!(q, Query::Include(_)) {
                    out.push(iv);
                }
                Ok(r)
            }
        }
    }

    pub fn last(&self, q: &Query) -> Result<MOut, MErr> {
        Ok(self.eval(q)?.pop().unwrap())
    }
}

/// The inner query of a stage, if it is not a source.
pub fn inner(q: &Query) -> Option<&Query> {
    Some(match q {
        Query::Pipe(p) => &p.inner,
        Query::PipeProperty(p) => &p.inner,
        Query::PipeWithPropertyPresence(p) => &p.inner,
        Query::PipeWithPropertyValue(p) => &p.inner,
        Query::Include(p) => &p.inner,
        Query::Count(p) => &p.inner,
        _ => return None,
    })
}

/// The same stage over another inner query.
pub fn with_inner(q: &Query, i: Query) -> Query {
    let mut q = q.clone();
    let b = Box::new(i);
    match &mut q {
        Query::Pipe(p) => p.inner = b,
        Query::PipeProperty(p) => p.inner = b,
        Query::PipeWithPropertyPresence(p) => p.inner = b,
        Query::PipeWithPropertyValue(p) => p.inner = b,
        Query::Include(p) => p.inner = b,
        Query::Count(p) => p.inner = b,
        _ => {}
    }
    q
}

pub fn item_text(i: &BulkInsertItem) -> String {
    match i {
        BulkInsertItem::Vertex(v) => format!("V({},{})", sid(v.id), v.t.as_str()),
        BulkInsertItem::Edge(e) => format!("E({})", se(&ek(e))),
        BulkInsertItem::VertexProperty(id, n, v) => format!("VP({},{},{})", sid(*id), sn(n.as_str()), v.0),
        BulkInsertItem::EdgeProperty(e, n, v) => format!("EP({},{},{})", se(&ek(e)), sn(n.as_str()), v.0),
    }
}

pub fn sid(id: Uuid) -> String {
    let s = id.simple().to_string();
    let t = s.trim_start_matches('0');
    if t.len() < 8 {
        format!("#{t}")
    } else {
        format!("#{}..{}", &s[..4], &s[28..])
    }
}
pub fn sn(s: &str) -> String {
    if s.len() > 20 {
        format!("{}..({}B)", s.chars().take(6).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}
pub fn se(e: &EKey) -> String {
    format!("{}-{}->{}", sid(e.0), sn(&e.1), sid(e.2))
}
pub fn vertex(id: Uuid, t: &str) -> Vertex {
    Vertex::with_id(id, ident(t))
}
