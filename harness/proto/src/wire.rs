//! The network messages, written down independently of the code: their
//! schema, their bytes, and what they mean.
use indradb::*;
use mc_core::model::*;
use mc_core::ops::Op;
use uuid::Uuid;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Uuid,
    Ident,
    Json,
    Text,
    U32,
    U64,
    Bool,
    Dir,
    Empty,
    Msg(&'static str),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Required,
    Optional,
    Repeated,
    /// One of a set of alternatives.
    One,
    /// A number, absent when zero.
    Plain,
}
use How::*;

pub type Field = (u64, K, How);

/// Transcribed from indradb.proto.
pub fn schema(msg: &str) -> &'static [Field] {
    const Q: K = K::Msg("Query");
    const E: K = K::Msg("Edge");
    match msg {
        "Edge" => &[(1, K::Uuid, Required), (2, K::Ident, Required), (3, K::Uuid, Required)],
        "Vertex" => &[(1, K::Uuid, Required), (2, K::Ident, Required)],
        "Query" => &[
            (1, K::Empty, One),
            (2, K::Msg("Range"), One),
            (3, K::Msg("Ids"), One),
            (4, K::Msg("Name"), One),
            (5, K::Msg("NameValue"), One),
            (6, K::Empty, One),
            (7, K::Msg("Edges"), One),
            (8, K::Msg("Name"), One),
            (9, K::Msg("NameValue"), One),
            (10, K::Msg("Pipe"), One),
            (11, K::Msg("PipeProperty"), One),
            (12, K::Msg("PipePresence"), One),
            (13, K::Msg("PipeValue"), One),
            (14, K::Msg("Inner"), One),
            (15, K::Msg("Inner"), One),
        ],
        "Range" => &[(1, K::U32, Plain), (2, K::Ident, Optional), (3, K::Uuid, Optional)],
        "Ids" => &[(1, K::Uuid, Repeated)],
        "Edges" => &[(1, E, Repeated)],
        "Name" => &[(1, K::Ident, Required)],
        "NameValue" => &[(1, K::Ident, Required), (2, K::Json, Required)],
        "Pipe" => &[(1, Q, Required), (2, K::Dir, Plain), (3, K::U32, Plain), (4, K::Ident, Optional)],
        "PipeProperty" => &[(1, Q, Required), (2, K::Ident, Optional)],
        "PipePresence" => &[(1, Q, Required), (2, K::Ident, Required), (3, K::Bool, Plain)],
        "PipeValue" => &[(1, Q, Required), (2, K::Ident, Required), (3, K::Json, Required), (4, K::Bool, Plain)],
        "Inner" => &[(1, Q, Required)],
        "Output" => &[
            (1, K::Msg("Vertices"), One),
            (2, K::Msg("Edges"), One),
            (3, K::U64, One),
            (4, K::Msg("AllVP"), One),
            (5, K::Msg("AllEP"), One),
        ],
        "Vertices" => &[(1, K::Msg("Vertex"), Repeated)],
        "AllVP" => &[(1, K::Msg("VP"), Repeated)],
        "AllEP" => &[(1, K::Msg("EP"), Repeated)],
        "Named" => &[(3, K::Ident, Required), (2, K::Json, Required)],
        "VertexProperty" => &[(1, K::Uuid, Required), (2, K::Json, Required)],
        "EdgeProperty" => &[(1, E, Required), (2, K::Json, Required)],
        "VP" => &[(1, K::Msg("Vertex"), Required), (2, K::Msg("Named"), Repeated)],
        "EP" => &[(1, E, Required), (2, K::Msg("Named"), Repeated)],
        "Item" => &[(1, K::Msg("Vertex"), One), (2, E, One), (3, K::Msg("VItem"), One), (4, K::Msg("EItem"), One)],
        "VItem" => &[(1, K::Uuid, Required), (4, K::Ident, Required), (3, K::Json, Required)],
        "EItem" => &[(1, E, Required), (4, K::Ident, Required), (3, K::Json, Required)],
        "Index" => &[(1, K::Ident, Required)],
        "Set" => &[(1, Q, Required), (2, K::Ident, Required), (3, K::Json, Required)],
        "Created" => &[(1, K::Bool, Plain)],
        "Execute" => &[(1, K::Text, Plain), (2, K::Json, Optional)],
        "Executed" => &[(1, K::Json, Required)],
        // A lone id or name.
        "Uuid" | "Identifier" | "Empty" => &[],
        _ => panic!("no message {msg}"),
    }
}

/// A parsed message.
#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Num(u64),
    /// A message that holds one text or id.
    Leaf(Vec<u8>),
    Text(Vec<u8>),
    Msg(&'static str, Vec<(u64, T)>),
    /// A field the schema does not have.
    Raw(Vec<u8>),
}

fn varint(mut n: u64, out: &mut Vec<u8>) {
    while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}
fn delimited(no: u64, b: &[u8], out: &mut Vec<u8>) {
    varint(no << 3 | 2, out);
    varint(b.len() as u64, out);
    out.extend_from_slice(b);
}

impl T {
    pub fn body(&self) -> Vec<u8> {
        let mut out = vec![];
        match self {
            T::Leaf(b) if !b.is_empty() => delimited(1, b, &mut out),
            T::Msg(_, fs) => {
                for (no, t) in fs {
                    match t {
                        T::Num(n) => {
                            varint(no << 3, &mut out);
                            varint(*n, &mut out);
                        }
                        T::Text(b) => delimited(*no, b, &mut out),
                        T::Raw(b) => out.extend_from_slice(b),
                        t => delimited(*no, &t.body(), &mut out),
                    }
                }
            }
            _ => {}
        }
        out
    }
}

struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn varint(&mut self) -> Option<u64> {
        let mut n = 0u64;
        for k in 0..10 {
            let (b, rest) = self.0.split_first()?;
            self.0 = rest;
            n |= ((b & 0x7f) as u64) << (7 * k);
            if b & 0x80 == 0 {
                return Some(n);
            }
        }
        None
    }
    fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.varint()? as usize;
        if n > self.0.len() {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
}

fn leaf(b: &[u8], text: bool) -> Option<Vec<u8>> {
    let mut c = Cur(b);
    let mut v = vec![];
    while !c.0.is_empty() {
        let tag = c.varint()?;
        if tag != 1 << 3 | 2 {
            return None;
        }
        v = c.bytes()?.to_vec();
        if text && std::str::from_utf8(&v).is_err() {
            return None;
        }
    }
    Some(v)
}

fn kind(k: K, b: &[u8]) -> Option<T> {
    Some(match k {
        K::Uuid => T::Leaf(leaf(b, false)?),
        K::Ident | K::Json => T::Leaf(leaf(b, true)?),
        K::Empty => parse("Empty", b)?,
        K::Msg(m) => parse(m, b)?,
        _ => return None,
    })
}

/// What the bytes are, if they are such a message; fields come once each, as
/// the encoder writes them.
pub fn parse(msg: &'static str, b: &[u8]) -> Option<T> {
    match msg {
        "Uuid" => return Some(T::Leaf(leaf(b, false)?)),
        "Identifier" => return Some(T::Leaf(leaf(b, true)?)),
        _ => {}
    }
    let mut c = Cur(b);
    let mut fs = vec![];
    while !c.0.is_empty() {
        let tag = c.varint()?;
        let f = schema(msg).iter().find(|f| f.0 == tag >> 3)?;
        let t = match (f.1, tag & 7) {
            (K::U32 | K::U64 | K::Bool | K::Dir, 0) => T::Num(c.varint()?),
            (K::Text, 2) => {
                let b = c.bytes()?;
                std::str::from_utf8(b).ok()?;
                T::Text(b.to_vec())
            }
            (k, 2) => kind(k, c.bytes()?)?,
            _ => return None,
        };
        fs.push((f.0, t));
    }
    Some(T::Msg(msg, fs))
}

// ---- Meaning ---------------------------------------------------------------

/// Why a message means nothing, or has no fixed meaning.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    Missing,
    Malformed,
    /// A number for a direction that is none.
    Direction,
}
type R<X> = std::result::Result<X, Bad>;

fn get<'a>(t: &'a T, no: u64) -> Option<&'a T> {
    match t {
        T::Msg(_, fs) => fs.iter().rev().find(|f| f.0 == no && !matches!(f.1, T::Raw(_))).map(|f| &f.1),
        _ => None,
    }
}
fn all<'a>(t: &'a T, no: u64) -> Vec<&'a T> {
    match t {
        T::Msg(_, fs) => fs.iter().filter(|f| f.0 == no).map(|f| &f.1).collect(),
        _ => vec![],
    }
}
fn need<'a>(t: &'a T, no: u64) -> R<&'a T> {
    get(t, no).ok_or(Bad::Missing)
}
fn text(t: &T) -> R<String> {
    match t {
        T::Leaf(b) | T::Text(b) => String::from_utf8(b.clone()).map_err(|_| Bad::Malformed),
        _ => Err(Bad::Malformed),
    }
}
pub fn m_uuid(t: &T) -> R<Uuid> {
    match t {
        T::Leaf(b) => Ok(Uuid::from_bytes(b[..].try_into().map_err(|_| Bad::Malformed)?)),
        _ => Err(Bad::Malformed),
    }
}
pub fn m_ident(t: &T) -> R<Identifier> {
    let s = text(t)?;
    if s.len() > 255 || !s.chars().all(|c| if c.is_ascii() { c.is_ascii_alphanumeric() || c == '-' || c == '_' } else { c.is_alphanumeric() }) {
        return Err(Bad::Malformed);
    }
    Ok(ident(&s))
}
pub fn m_json(t: &T) -> R<Json> {
    serde_json::from_str::<serde_json::Value>(&text(t)?).map(Json::new).map_err(|_| Bad::Malformed)
}
fn num(t: &T, no: u64) -> u64 {
    match get(t, no) {
        Some(T::Num(n)) => *n,
        _ => 0,
    }
}
fn opt<X>(t: &T, no: u64, f: fn(&T) -> R<X>) -> R<Option<X>> {
    get(t, no).map(f).transpose()
}
pub fn m_edge(t: &T) -> R<Edge> {
    Ok(Edge::new(m_uuid(need(t, 1)?)?, m_ident(need(t, 2)?)?, m_uuid(need(t, 3)?)?))
}
pub fn m_vertex(t: &T) -> R<Vertex> {
    Ok(Vertex::with_id(m_uuid(need(t, 1)?)?, m_ident(need(t, 2)?)?))
}

pub fn m_query(t: &T) -> R<Query> {
    let T::Msg(_, fs) = t else { return Err(Bad::Malformed) };
    let Some((no, v)) = fs.iter().rev().find(|f| !matches!(f.1, T::Raw(_))) else { return Err(Bad::Missing) };
    // Everything is looked at: a part that is malformed condemns the whole.
    let inner = |v: &T| Ok(Box::new(m_query(need(v, 1)?)?));
    Ok(match no {
        1 => Query::AllVertex,
        2 => Query::RangeVertex(RangeVertexQuery { limit: num(v, 1) as u32, t: opt(v, 2, m_ident)?, start_id: opt(v, 3, m_uuid)? }),
        3 => Query::SpecificVertex(SpecificVertexQuery { ids: all(v, 1).into_iter().map(m_uuid).collect::<R<Vec<_>>>()? }),
        4 => Query::VertexWithPropertyPresence(VertexWithPropertyPresenceQuery { name: m_ident(need(v, 1)?)? }),
        5 => Query::VertexWithPropertyValue(VertexWithPropertyValueQuery { name: m_ident(need(v, 1)?)?, value: m_json(need(v, 2)?)? }),
        6 => Query::AllEdge,
        7 => Query::SpecificEdge(SpecificEdgeQuery { edges: all(v, 1).into_iter().map(m_edge).collect::<R<Vec<_>>>()? }),
        8 => Query::EdgeWithPropertyPresence(EdgeWithPropertyPresenceQuery { name: m_ident(need(v, 1)?)? }),
        9 => Query::EdgeWithPropertyValue(EdgeWithPropertyValueQuery { name: m_ident(need(v, 1)?)?, value: m_json(need(v, 2)?)? }),
        10 => {
            let inner = inner(v)?;
            let t = opt(v, 4, m_ident)?;
            let direction = match num(v, 2) {
                0 => EdgeDirection::Outbound,
                1 => EdgeDirection::Inbound,
                _ => return Err(Bad::Direction),
            };
            Query::Pipe(PipeQuery { inner, direction, limit: num(v, 3) as u32, t })
        }
        11 => Query::PipeProperty(PipePropertyQuery { inner: inner(v)?, name: opt(v, 2, m_ident)? }),
        12 => Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: inner(v)?, name: m_ident(need(v, 2)?)?, exists: num(v, 3) != 0 }),
        13 => Query::PipeWithPropertyValue(PipeWithPropertyValueQuery {
            inner: inner(v)?,
            name: m_ident(need(v, 2)?)?,
            value: m_json(need(v, 3)?)?,
            equal: num(v, 4) != 0,
        }),
        14 => Query::Include(IncludeQuery { inner: inner(v)? }),
        15 => Query::Count(CountQuery { inner: inner(v)? }),
        _ => return Err(Bad::Missing),
    })
}

pub fn m_named(t: &T) -> R<NamedProperty> {
    Ok(NamedProperty::new(m_ident(need(t, 3)?)?, m_json(need(t, 2)?)?))
}
pub fn m_output(t: &T) -> R<QueryOutputValue> {
    let T::Msg(_, fs) = t else { return Err(Bad::Malformed) };
    let Some((no, v)) = fs.last() else { return Err(Bad::Missing) };
    Ok(match no {
        1 => QueryOutputValue::Vertices(all(v, 1).into_iter().map(m_vertex).collect::<R<Vec<_>>>()?),
        2 => QueryOutputValue::Edges(all(v, 1).into_iter().map(m_edge).collect::<R<Vec<_>>>()?),
        3 => match v {
            T::Num(n) => QueryOutputValue::Count(*n),
            _ => return Err(Bad::Malformed),
        },
        4 => QueryOutputValue::VertexProperties(all(v, 1).into_iter().map(m_vp).collect::<R<Vec<_>>>()?),
        _ => QueryOutputValue::EdgeProperties(all(v, 1).into_iter().map(m_ep).collect::<R<Vec<_>>>()?),
    })
}
pub fn m_vp(v: &T) -> R<VertexProperties> {
    Ok(VertexProperties::new(m_vertex(need(v, 1)?)?, all(v, 2).into_iter().map(m_named).collect::<R<Vec<_>>>()?))
}
pub fn m_ep(v: &T) -> R<EdgeProperties> {
    Ok(EdgeProperties::new(m_edge(need(v, 1)?)?, all(v, 2).into_iter().map(m_named).collect::<R<Vec<_>>>()?))
}
pub fn m_vprop(t: &T) -> R<VertexProperty> {
    Ok(VertexProperty::new(m_uuid(need(t, 1)?)?, m_json(need(t, 2)?)?))
}
pub fn m_eprop(t: &T) -> R<EdgeProperty> {
    Ok(EdgeProperty::new(m_edge(need(t, 1)?)?, m_json(need(t, 2)?)?))
}
pub fn m_item(t: &T) -> R<BulkInsertItem> {
    let T::Msg(_, fs) = t else { return Err(Bad::Malformed) };
    let Some((no, v)) = fs.iter().rev().find(|f| !matches!(f.1, T::Raw(_))) else { return Err(Bad::Missing) };
    Ok(match no {
        1 => BulkInsertItem::Vertex(m_vertex(v)?),
        2 => BulkInsertItem::Edge(m_edge(v)?),
        3 => BulkInsertItem::VertexProperty(m_uuid(need(v, 1)?)?, m_ident(need(v, 4)?)?, m_json(need(v, 3)?)?),
        _ => BulkInsertItem::EdgeProperty(m_edge(need(v, 1)?)?, m_ident(need(v, 4)?)?, m_json(need(v, 3)?)?),
    })
}

// ---- Writing ---------------------------------------------------------------

fn l_uuid(u: Uuid) -> T {
    T::Leaf(u.as_bytes().to_vec())
}
fn l_ident(i: &str) -> T {
    T::Leaf(i.as_bytes().to_vec())
}
fn l_json(j: &Json) -> T {
    T::Leaf(j.0.to_string().into_bytes())
}
pub fn w_vertex(v: &Vertex) -> T {
    T::Msg("Vertex", vec![(1, l_uuid(v.id)), (2, l_ident(&v.t))])
}
pub fn w_edge(e: &Edge) -> T {
    T::Msg("Edge", vec![(1, l_uuid(e.outbound_id)), (2, l_ident(&e.t)), (3, l_uuid(e.inbound_id))])
}
fn plain(fs: &mut Vec<(u64, T)>, no: u64, n: u64) {
    if n != 0 {
        fs.push((no, T::Num(n)));
    }
}
pub fn w_query(q: &Query) -> T {
    let name = |n: &Identifier| T::Msg("Name", vec![(1, l_ident(n))]);
    let nv = |n: &Identifier, v: &Json| T::Msg("NameValue", vec![(1, l_ident(n)), (2, l_json(v))]);
    let (no, t) = match q {
        Query::AllVertex => (1, T::Msg("Empty", vec![])),
        Query::RangeVertex(r) => {
            let mut f = vec![];
            plain(&mut f, 1, r.limit as u64);
            f.extend(r.t.map(|t| (2, l_ident(&t))));
            f.extend(r.start_id.map(|i| (3, l_uuid(i))));
            (2, T::Msg("Range", f))
        }
        Query::SpecificVertex(s) => (3, T::Msg("Ids", s.ids.iter().map(|i| (1, l_uuid(*i))).collect())),
        Query::VertexWithPropertyPresence(x) => (4, name(&x.name)),
        Query::VertexWithPropertyValue(x) => (5, nv(&x.name, &x.value)),
        Query::AllEdge => (6, T::Msg("Empty", vec![])),
        Query::SpecificEdge(s) => (7, T::Msg("Edges", s.edges.iter().map(|e| (1, w_edge(e))).collect())),
        Query::EdgeWithPropertyPresence(x) => (8, name(&x.name)),
        Query::EdgeWithPropertyValue(x) => (9, nv(&x.name, &x.value)),
        Query::Pipe(p) => {
            let mut f = vec![(1, w_query(&p.inner))];
            plain(&mut f, 2, (p.direction == EdgeDirection::Inbound) as u64);
            plain(&mut f, 3, p.limit as u64);
            f.extend(p.t.map(|t| (4, l_ident(&t))));
            (10, T::Msg("Pipe", f))
        }
        Query::PipeProperty(p) => {
            let mut f = vec![(1, w_query(&p.inner))];
            f.extend(p.name.map(|t| (2, l_ident(&t))));
            (11, T::Msg("PipeProperty", f))
        }
        Query::PipeWithPropertyPresence(p) => {
            let mut f = vec![(1, w_query(&p.inner)), (2, l_ident(&p.name))];
            plain(&mut f, 3, p.exists as u64);
            (12, T::Msg("PipePresence", f))
        }
        Query::PipeWithPropertyValue(p) => {
            let mut f = vec![(1, w_query(&p.inner)), (2, l_ident(&p.name)), (3, l_json(&p.value))];
            plain(&mut f, 4, p.equal as u64);
            (13, T::Msg("PipeValue", f))
        }
        Query::Include(p) => (14, T::Msg("Inner", vec![(1, w_query(&p.inner))])),
        Query::Count(p) => (15, T::Msg("Inner", vec![(1, w_query(&p.inner))])),
    };
    T::Msg("Query", vec![(no, t)])
}
pub fn w_item(i: &BulkInsertItem) -> T {
    let (no, t) = match i {
        BulkInsertItem::Vertex(v) => (1, w_vertex(v)),
        BulkInsertItem::Edge(e) => (2, w_edge(e)),
        BulkInsertItem::VertexProperty(u, n, v) => (3, T::Msg("VItem", vec![(1, l_uuid(*u)), (4, l_ident(n)), (3, l_json(v))])),
        BulkInsertItem::EdgeProperty(e, n, v) => (4, T::Msg("EItem", vec![(1, w_edge(e)), (4, l_ident(n)), (3, l_json(v))])),
    };
    T::Msg("Item", vec![(no, t)])
}
pub fn w_named(p: &NamedProperty) -> T {
    T::Msg("Named", vec![(2, l_json(&p.value)), (3, l_ident(&p.name))])
}
pub fn w_output(o: &QueryOutputValue) -> T {
    let (no, t) = match o {
        QueryOutputValue::Vertices(v) => (1, T::Msg("Vertices", v.iter().map(|v| (1, w_vertex(v))).collect())),
        QueryOutputValue::Edges(v) => (2, T::Msg("Edges", v.iter().map(|v| (1, w_edge(v))).collect())),
        QueryOutputValue::Count(n) => (3, T::Num(*n)),
        QueryOutputValue::VertexProperties(v) => (4, T::Msg("AllVP", v.iter().map(|v| (1, w_vp(v))).collect())),
        QueryOutputValue::EdgeProperties(v) => (5, T::Msg("AllEP", v.iter().map(|v| (1, w_ep(v))).collect())),
    };
    T::Msg("Output", vec![(no, t)])
}
pub fn w_vp(v: &VertexProperties) -> T {
    let mut f = vec![(1, w_vertex(&v.vertex))];
    f.extend(v.props.iter().map(|p| (2, w_named(p))));
    T::Msg("VP", f)
}
pub fn w_ep(v: &EdgeProperties) -> T {
    let mut f = vec![(1, w_edge(&v.edge))];
    f.extend(v.props.iter().map(|p| (2, w_named(p))));
    T::Msg("EP", f)
}

// ---- Requests --------------------------------------------------------------

/// A call's path, its request message, and whether it is streamed.
pub fn request(op: &Op) -> (&'static str, &'static str, Vec<T>) {
    match op {
        Op::CreateVertex(u, t) => ("CreateVertex", "Vertex", vec![w_vertex(&Vertex::with_id(*u, ident(t)))]),
        Op::CreateEdge(a, t, b) => ("CreateEdge", "Edge", vec![w_edge(&Edge::new(*a, ident(t), *b))]),
        Op::Delete(q) => ("Delete", "Query", vec![w_query(q)]),
        Op::Get(q) => ("Get", "Query", vec![w_query(q)]),
        Op::Set(q, n, v) => ("SetProperties", "Set", vec![T::Msg("Set", vec![(1, w_query(q)), (2, l_ident(n)), (3, l_json(v))])]),
        Op::Bulk(items) => ("BulkInsert", "Item", items.iter().map(w_item).collect()),
        Op::Index(n) => ("IndexProperty", "Index", vec![T::Msg("Index", vec![(1, l_ident(n))])]),
        Op::Sync => ("Sync", "Empty", vec![T::Msg("Empty", vec![])]),
        Op::Reopen | Op::ReopenAs(_) | Op::Plug(_) => panic!("no request"),
    }
}

/// The operation a request means.
pub fn meaning(path: &str, msgs: &[T]) -> R<Op> {
    let t = &msgs.first();
    let t = |n: usize| -> &T { t.unwrap_or_else(|| panic!("message {n}")) };
    Ok(match path {
        "CreateVertex" => {
            let v = m_vertex(t(0))?;
            Op::CreateVertex(v.id, v.t.to_string())
        }
        "CreateEdge" => {
            let e = m_edge(t(0))?;
            Op::CreateEdge(e.outbound_id, e.t.to_string(), e.inbound_id)
        }
        "Delete" => Op::Delete(m_query(t(0))?),
        "Get" => Op::Get(m_query(t(0))?),
        "SetProperties" => Op::Set(m_query(need(t(0), 1)?)?, m_ident(need(t(0), 2)?)?.to_string(), m_json(need(t(0), 3)?)?),
        "BulkInsert" => Op::Bulk(msgs.iter().map(m_item).collect::<R<Vec<_>>>()?),
        "IndexProperty" => Op::Index(m_ident(need(t(0), 1)?)?.to_string()),
        "Sync" => Op::Sync,
        p => panic!("no call {p}"),
    })
}

/// Everything that can be done to a message: parts left out, parts that are
/// malformed, other numbers, parts that nobody knows, parts twice.
pub fn changes(t: &T) -> Vec<(String, T)> {
    let mut out = vec![];
    let T::Msg(m, fs) = t else { return out };
    let put = |k: usize, v: T| {
        let mut f = fs.clone();
        f[k].1 = v;
        T::Msg(m, f)
    };
    for (k, (no, v)) in fs.iter().enumerate() {
        let mut f = fs.clone();
        f.remove(k);
        out.push((format!("{m}.{no} left out"), T::Msg(m, f)));
        let fk = schema(m).iter().find(|x| x.0 == *no).unwrap().1;
        for (what, w) in leaves(fk, v) {
            out.push((format!("{m}.{no} {what}"), put(k, w)));
        }
        for (what, w) in changes(v) {
            out.push((format!("{m}.{no}/{what}"), put(k, w)));
        }
    }
    // A field of another version of the schema.
    for raw in [vec![0xf8, 0x3f, 0x05], vec![0xfa, 0x3f, 0x02, b'h', b'i']] {
        let mut f = fs.clone();
        f.push((0, T::Raw(raw)));
        out.push((format!("{m} with an unknown field"), T::Msg(m, f)));
    }
    out
}

fn leaves(k: K, v: &T) -> Vec<(String, T)> {
    let leaf = |b: &[u8]| T::Leaf(b.to_vec());
    let own = match v {
        T::Leaf(b) => b.clone(),
        _ => vec![],
    };
    match k {
        K::Uuid => {
            let mut long = own.clone();
            long.push(0);
            let text = Uuid::from_slice(&own).map(|u| u.to_string()).unwrap_or_default();
            vec![
                ("of no bytes".into(), leaf(b"")),
                ("of 1 byte".into(), leaf(b"\x01")),
                ("of 15 bytes".into(), leaf(&own[..15.min(own.len())])),
                ("of 17 bytes".into(), leaf(&long)),
                ("as text".into(), leaf(text.as_bytes())),
                ("of 32 bytes".into(), leaf(&[own.clone(), own.clone()].concat())),
                ("nil".into(), leaf(&[0; 16])),
            ]
        }
        K::Ident => {
            let v: Vec<(&str, Vec<u8>)> = vec![
                ("empty", vec![]),
                ("with a space", b"a b".to_vec()),
                ("with NUL", b"p\0".to_vec()),
                ("with a dot", b"p.".to_vec()),
                ("of 255 bytes", vec![b'a'; 255]),
                ("of 256 bytes", vec![b'a'; 256]),
                ("of 128 two-byte characters", "é".repeat(128).into_bytes()),
                ("not UTF-8", vec![b'p', 0xff]),
                ("another", b"zz".to_vec()),
            ];
            v.into_iter().map(|(w, b)| (format!("name {w}"), T::Leaf(b))).collect()
        }
        K::Json => {
            let v: Vec<(&str, Vec<u8>)> = vec![
                ("empty", vec![]),
                ("blank", b" ".to_vec()),
                ("cut off", b"{\"a\":".to_vec()),
                ("not a word", b"nul".to_vec()),
                ("two values", b"1 2".to_vec()),
                ("with a trailing comma", b"[1,]".to_vec()),
                ("bare text", b"x".to_vec()),
                ("not a number", b"NaN".to_vec()),
                ("with a lone surrogate", b"\"\\ud800\"".to_vec()),
                ("not UTF-8", vec![b'"', 0xff, b'"']),
                ("too deep", "[".repeat(500).into_bytes()),
                ("null", b"null".to_vec()),
                ("spaced", b" [ 1 ] ".to_vec()),
            ];
            v.into_iter().map(|(w, b)| (format!("value {w}"), T::Leaf(b))).collect()
        }
        K::U32 => [0u64, 1, u32::MAX as u64].iter().map(|n| (format!("= {n}"), T::Num(*n))).collect(),
        K::Bool => [0u64, 1].iter().map(|n| (format!("= {n}"), T::Num(*n))).collect(),
        K::Dir => [0u64, 1, 2, 77, u64::MAX].iter().map(|n| (format!("= {n}"), T::Num(*n))).collect(),
        _ => vec![],
    }
}
