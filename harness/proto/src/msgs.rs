//! C22: messages convert faithfully; malformed ones are refused harmlessly.
use crate::net::*;
use crate::raw::Raw;
use crate::wire::*;
use indradb::*;
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{take_panic, Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use mc_core::values::*;
use prost::Message;
use std::fmt::Debug;
use tonic::Code;

type Parts = Vec<Box<dyn Part>>;
const M: u32 = u32::MAX;

// ---- Conversions -----------------------------------------------------------

/// `x` to the network and back, by the code and by the schema, crossed.
fn there_and_back<X, P, E>(x: &X, msg: &'static str, w: &T, m: fn(&T) -> std::result::Result<X, Bad>) -> std::result::Result<(), String>
where
    X: Clone + Debug + Into<P>,
    P: Message + Default + Clone + TryInto<X, Error = E>,
    E: Debug,
{
    let want = format!("{x:?}");
    let p: P = x.clone().into();
    let same = |how: &str, got: String| if got == want { Ok(()) } else { Err(format!("{how}: {want} became {got}")) };
    same("converted and back", format!("{:?}", p.clone().try_into().map_err(|e| format!("{e:?}"))?))?;
    let b = p.encode_to_vec();
    let t = parse(msg, &b).ok_or_else(|| format!("{want} is written as bytes that are no {msg}"))?;
    same("written by the code and read by the schema", format!("{:?}", m(&t).map_err(|e| format!("{want}: {e:?}"))?))?;
    let p2 = P::decode(&w.body()[..]).map_err(|e| format!("{want}: {e}"))?;
    same("written by the schema and read by the code", format!("{:?}", p2.try_into().map_err(|e| format!("{want}: {e:?}"))?))
}

fn names() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "-", "_", "é", "日本", "Z9-_"].iter().map(|s| s.to_string()).collect();
    v.push("n".repeat(255));
    v
}
fn ids() -> Vec<uuid::Uuid> {
    [NIL, 1, CARRY, MAXID, 0x0102030405060708090a0b0c0d0e0f10].iter().map(|i| id(*i)).collect()
}

/// Each kind of value, every combination of a few parts.
fn forms(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let vals = values(2, if cfg.thorough { 3 } else { 2 });
    let mant: &[u64] = if cfg.thorough { &[0, 1, 1 << 51, 1 << 26, 0xf_ffff_ffff_ffff, 0x5_5555_5555_5555, 3 << 50, 12345] } else { &[0, 1 << 51] };
    let mut jsons: Vec<Json> = vals.clone();
    jsons.extend(floats(mant).0.into_iter().map(|f| Json::new(serde_json::json!(f))));
    jsons.extend(LOSSY.iter().map(|f| Json::new(serde_json::json!(f))));
    for d in 1..=127 {
        jsons.push(j(&nested("[", "1", "]", d)));
        jsons.push(j(&nested("{\"a\":", "1", "}", d)));
    }
    let few: Vec<Json> = ["null", "0", "-0.0", "\"\"", "[]", "{}", "{\"a\":[1,null]}", "18446744073709551615"].iter().map(|s| j(s)).collect();

    let texts: Vec<String> = jsons.iter().map(|x| x.0.to_string()).collect();
    let js = jsons.clone();
    p.push(cases(
        "json values",
        js.len() as u64,
        move |i, env| {
            let x = &js[i as usize];
            env.count("conversions compared", 3);
            let w = T::Leaf(x.0.to_string().into_bytes());
            let read = |t: &T| m_json(t);
            let p: indradb_proto::Json = x.clone().into();
            let fail = |e: String| {
                let short = match x.0.as_f64() {
                    Some(f) if x.0.is_f64() => format!("float {f:e}"),
                    _ => format!("value {:.60}", x.0.to_string()),
                };
                Fail::new(&short, format!("{short}: {e}"))
            };
            let back = |p: indradb_proto::Json, how: &str| {
                let y: std::result::Result<Json, _> = p.try_into();
                let y = y.map_err(|e| format!("{how}: {e}"))?;
                if cj(&y) != cj(x) {
                    return Err(format!("{how}: became {}", y.0));
                }
                Ok(())
            };
            let r = (|| {
                back(p.clone(), "converted and back")?;
                let t = parse("Identifier", &p.encode_to_vec()).ok_or("written as bytes that are no message")?;
                let y = read(&t).map_err(|e| format!("the text written is {e:?}"))?;
                let lossy = serde_json::from_str::<serde_json::Value>(&x.0.to_string()).map_or(true, |v| canon(&v) != cj(x));
                if !lossy && cj(&y) != cj(x) {
                    return Err(format!("written as {}", y.0));
                }
                back(indradb_proto::Json::decode(&w.body()[..]).map_err(|e| e.to_string())?, "read from the text")
            })();
            r.map_err(fail)
        },
        move |i| texts[i as usize].chars().take(80).collect(),
    ));

    // Ids, names, vertices, edges.
    let (us, ns) = (ids(), names());
    let n = us.len() * ns.len();
    p.push(cases(
        "vertices, edges, properties",
        n as u64,
        move |i, env| {
            let (u, t) = (us[i as usize / ns.len()], ident(&ns[i as usize % ns.len()]));
            let fail = |e: String| Fail::new(&format!("form {u} {t:?}"), e);
            let mut n = 0;
            let mut all = || -> std::result::Result<(), String> {
                there_and_back::<_, indradb_proto::Uuid, _>(&u, "Uuid", &T::Leaf(u.as_bytes().to_vec()), m_uuid)?;
                there_and_back::<_, indradb_proto::Identifier, _>(&t, "Identifier", &T::Leaf(t.as_str().as_bytes().to_vec()), m_ident)?;
                let v = Vertex::with_id(u, t);
                there_and_back::<_, indradb_proto::Vertex, _>(&v, "Vertex", &w_vertex(&v), m_vertex)?;
                for k in &us {
                    let e = Edge::new(u, t, *k);
                    there_and_back::<_, indradb_proto::Edge, _>(&e, "Edge", &w_edge(&e), m_edge)?;
                    n += 1;
                    for x in &few {
                        let ep = EdgeProperty::new(e.clone(), x.clone());
                        let w = T::Msg("EdgeProperty", vec![(1, w_edge(&e)), (2, T::Leaf(x.0.to_string().into_bytes()))]);
                        there_and_back::<_, indradb_proto::EdgeProperty, _>(&ep, "EdgeProperty", &w, m_eprop)?;
                        for nm in &ns {
                            let it = BulkInsertItem::EdgeProperty(e.clone(), ident(nm), x.clone());
                            there_and_back::<_, indradb_proto::BulkInsertItem, _>(&it, "Item", &w_item(&it), m_item)?;
                            n += 1;
                        }
                    }
                    let it = BulkInsertItem::Edge(e.clone());
                    there_and_back::<_, indradb_proto::BulkInsertItem, _>(&it, "Item", &w_item(&it), m_item)?;
                }
                let it = BulkInsertItem::Vertex(v.clone());
                there_and_back::<_, indradb_proto::BulkInsertItem, _>(&it, "Item", &w_item(&it), m_item)?;
                for x in &few {
                    let vp = VertexProperty::new(u, x.clone());
                    let w = T::Msg("VertexProperty", vec![(1, T::Leaf(u.as_bytes().to_vec())), (2, T::Leaf(x.0.to_string().into_bytes()))]);
                    there_and_back::<_, indradb_proto::VertexProperty, _>(&vp, "VertexProperty", &w, m_vprop)?;
                    for nm in &ns {
                        let it = BulkInsertItem::VertexProperty(u, ident(nm), x.clone());
                        there_and_back::<_, indradb_proto::BulkInsertItem, _>(&it, "Item", &w_item(&it), m_item)?;
                        let np = NamedProperty::new(ident(nm), x.clone());
                        there_and_back::<_, indradb_proto::NamedProperty, _>(&np, "Named", &w_named(&np), m_named)?;
                        n += 2;
                    }
                }
                // Elements with none, one and several properties, in order.
                for k in 0..=few.len() {
                    let props: Vec<NamedProperty> = (0..k).map(|k| NamedProperty::new(ident(&ns[k % ns.len()]), few[k].clone())).collect();
                    let vp = VertexProperties::new(v.clone(), props.clone());
                    there_and_back::<_, indradb_proto::VertexProperties, _>(&vp, "VP", &w_vp(&vp), m_vp)?;
                    let ep = EdgeProperties::new(Edge::new(u, t, us[0]), props);
                    there_and_back::<_, indradb_proto::EdgeProperties, _>(&ep, "EP", &w_ep(&ep), m_ep)?;
                    let outs = [
                        QueryOutputValue::Vertices(vec![v.clone(); k]),
                        QueryOutputValue::Edges(us.iter().cycle().take(k).map(|b| Edge::new(u, t, *b)).collect()),
                        QueryOutputValue::Count(k as u64),
                        QueryOutputValue::Count(u64::MAX - k as u64),
                        QueryOutputValue::VertexProperties(vec![vp; k]),
                        QueryOutputValue::EdgeProperties(vec![ep; k]),
                    ];
                    for o in outs {
                        there_and_back::<_, indradb_proto::QueryOutputValue, _>(&o, "Output", &w_output(&o), m_output)?;
                        n += 1;
                    }
                }
                Ok(())
            };
            let r = all();
            env.count("conversions compared", 3 * n);
            r.map_err(fail)
        },
        |i| format!("form {i}"),
    ));

    // Queries, with every choice of options, nested.
    let (src, stg) = query_forms();
    for depth in 0..=(if cfg.thorough { 3 } else { 2 }) {
        // Deeper: fewer leaves.
        let s: Vec<Query> = if depth == 3 { src.iter().step_by(7).cloned().collect() } else { src.clone() };
        let n = s.len() as u64 * (stg.len() as u64).pow(depth as u32);
        let (stg, s2, stg2) = (stg.clone(), s.clone(), stg.clone());
        p.push(cases(
            &format!("queries of depth {depth}"),
            n,
            move |i, env| {
                let q = nth_query(&s, &stg, depth, i);
                env.count("conversions compared", 3);
                let fail = |e: String| Fail::new(&format!("form {}", qtext(&q)), e);
                there_and_back::<_, indradb_proto::Query, _>(&q, "Query", &w_query(&q), m_query).map_err(fail)?;
                // As part of the other request that carries one.
                let (n, v) = (ident("p"), j("{\"a\":[1]}"));
                let r: indradb_proto::SetPropertiesRequest = (q.clone(), n, v.clone()).into();
                let back: (Query, Identifier, Json) = r.clone().try_into().map_err(|e| fail(format!("{e:?}")))?;
                if format!("{back:?}") != format!("{:?}", (&q, n, &v)) {
                    return Err(fail(format!("as part of a request, {q:?} became {back:?}")));
                }
                match parse("Set", &r.encode_to_vec()).map(|t| meaning("SetProperties", &[t])) {
                    Some(Ok(Op::Set(q2, n2, v2))) if format!("{q2:?}") == format!("{q:?}") && n2 == "p" && cj(&v2) == cj(&v) => Ok(()),
                    o => Err(fail(format!("a request to set by {q:?} is written as one that means {o:?}"))),
                }
            },
            move |i| qtext(&nth_query(&s2, &stg2, depth, i)),
        ));
    }
    p
}

/// Sources and stages with every option given, absent, and at its default.
fn query_forms() -> (Vec<Query>, Vec<Query>) {
    let h = Query::AllVertex;
    let mut src = vec![Query::AllVertex, Query::AllEdge];
    let long = "n".repeat(255);
    for lim in [0, 1, 127, 128, M] {
        for t in [None, Some(""), Some("x"), Some(&long[..])] {
            for s in [None, Some(id(NIL)), Some(id(MAXID))] {
                src.push(q_range(s, t, lim));
            }
        }
    }
    for k in [0usize, 1, 2, 5] {
        src.push(q_vs(&ids()[..k]));
        src.push(q_es(&ids()[..k].iter().map(|i| (*i, "t".to_string(), id(7))).collect::<Vec<_>>()));
    }
    src.push(q_vs(&[id(1), id(1), id(NIL)]));
    src.push(q_es(&[key(1, "", 2), key(2, "t", 1), key(1, "", 2)]));
    for n in ["", "p", "é"] {
        src.push(q_vhas(n));
        src.push(q_ehas(n));
        for v in ["null", "1", "-0.0", "{\"a\":[]}"] {
            src.push(q_veq(n, &j(v)));
            src.push(q_eeq(n, &j(v)));
        }
    }
    let mut stg = vec![q_incl(h.clone()), q_count(h.clone())];
    for out in [true, false] {
        for lim in [0, 1, M] {
            for t in [None, Some(""), Some("t")] {
                stg.push(q_pipe(h.clone(), out, t, lim));
            }
        }
    }
    for n in [None, Some(""), Some("p")] {
        stg.push(q_props(h.clone(), n));
    }
    for n in ["", "p"] {
        for b in [true, false] {
            stg.push(q_has(h.clone(), n, b));
            for v in ["null", "[0,\"\"]"] {
                stg.push(q_eq(h.clone(), n, &j(v), b));
            }
        }
    }
    (src, stg)
}

// ---- Malformed requests ----------------------------------------------------

struct Desk {
    // Its connection is closed before the database.
    raw: Raw,
    r: Remote<MemoryDatastore>,
    m: Model,
}

fn graph() -> Vec<Op> {
    query_graphs()[0].clone()
}
fn universe() -> Universe {
    Universe::new(&[NIL, 7, MAXID], &["x", "y"], &["t", "u"], &["p", "q", "pp"], &["1", "2"])
}

impl Desk {
    fn new() -> std::result::Result<Desk, String> {
        let r = Remote::new(MemoryDatastore::new_db())?;
        let raw = Raw::new(r.addr)?;
        let mut m = Model::default();
        for op in graph() {
            let got = r.db.run(&op);
            let want = apply_model(&mut m, &op, &*r.db)?;
            if got != want {
                return Err(format!("{} answered {}", optext(&op), ans_text(&got)));
            }
        }
        Ok(Desk { r, raw, m })
    }
    fn unharmed(&self, bat: &[Query], env: &mut Env) -> std::result::Result<(), String> {
        env.count("queries compared", check_state(&*self.r.db, &self.m, bat)?);
        self.r.call(|mut c| async move { c.ping().await }).map_err(|e| format!("the server no longer answers: {e}"))
    }
}

/// A database, but for one query whose answer is known already.
struct Known<'a>(&'a Database<MemoryDatastore>, Query, Vec<QueryOutputValue>);
impl Handle for Known<'_> {
    fn run(&self, op: &Op) -> Ans {
        match op {
            Op::Get(q) => match self.ask(q.clone()) {
                Ok(o) => Ans::Out(o.iter().map(|x| mout(x).sorted()).collect()),
                Err(e) => Ans::Err(e),
            },
            o => self.0.run(o),
        }
    }
    fn ask(&self, q: Query) -> std::result::Result<Vec<QueryOutputValue>, String> {
        if format!("{q:?}") == format!("{:?}", self.1) {
            Ok(self.2.clone())
        } else {
            self.0.ask(q)
        }
    }
}

/// Whether the desk must be set up again.
fn send(d: &mut Desk, path: &str, bytes: Vec<Vec<u8>>, means: std::result::Result<Op, Bad>, framed: bool, bat: &[Query], env: &mut Env) -> std::result::Result<bool, String> {
    take_panic();
    let got = d.raw.send(path, bytes)?;
    if let Some(p) = take_panic() {
        return Err(format!("the server panicked: {p}"));
    }
    env.count("requests sent", 1);
    match means {
        Err(b) => {
            match got {
                Ok(_) if b == Bad::Direction && path == "Get" => {}
                Ok(_) => return Err("it was accepted".into()),
                Err(s) if framed && s.code() != Code::InvalidArgument => return Err(format!("it was refused with {:?} ({}), not as invalid", s.code(), s.message())),
                // Not even a message: refused by the decoder.
                Err(s) if matches!(s.code(), Code::InvalidArgument | Code::Internal) => {}
                Err(s) => return Err(format!("it was refused with {:?} ({})", s.code(), s.message())),
            }
            env.count("malformed requests refused", 1);
            d.unharmed(bat, env)?;
            Ok(false)
        }
        Ok(op) => {
            env.count("well-formed requests obeyed", 1);
            if let Op::Get(q) = &op {
                let want = expect(&d.m, q);
                match got {
                    Ok(ms) => {
                        let outs: std::result::Result<Vec<_>, _> = ms.iter().map(|b| parse("Output", b).ok_or(Bad::Malformed).and_then(|t| m_output(&t))).collect();
                        let outs = outs.map_err(|e| format!("the answer is {e:?}"))?;
                        verify(&Known(&d.r.db, q.clone(), outs), &d.m, q)?;
                    }
                    Err(s) if matches!(want, Ans::Err(_)) && s.code() == Code::Internal => {}
                    Err(s) => return Err(format!("answered {:?} ({}), expected {}", s.code(), s.message(), ans_text(&want))),
                }
                return Ok(false);
            }
            let open = matches!(&op, Op::Delete(q) | Op::Set(q, _, _) if cuts(q));
            let want = apply_model(&mut d.m, &op, &*d.r.db)?;
            let got = match got {
                Ok(ms) => match (path, parse(if path.starts_with("Create") { "Created" } else { "Empty" }, ms.first().map_or(&[], |m| &m[..]))) {
                    (_, None) => return Err(format!("the answer {ms:?} is malformed")),
                    ("CreateVertex" | "CreateEdge", Some(T::Msg(_, fs))) => Ans::Created(!fs.is_empty() && fs[0].1 == T::Num(1)),
                    _ => Ans::Ok,
                },
                Err(s) => Ans::Err(if s.code() == Code::Internal { format!("~{}", s.message()) } else { format!("{:?} {}", s.code(), s.message()) }),
            };
            if got != want {
                return Err(format!("it means {} and answered {}, expected {}", optext(&op), ans_text(&got), ans_text(&want)));
            }
            // Where a limit leaves a choice, any will do here.
            if !open {
                env.count("queries compared", check_state(&*d.r.db, &d.m, bat)?);
            }
            Ok(true)
        }
    }
}

/// Requests to change: every kind, around every kind of query.
fn requests(deep: usize) -> Vec<Op> {
    let mut ops = vec![
        cv(9, "x"),
        ce(NIL, "t", 7),
        index("q"),
        Op::Bulk(vec![bv(9, "x"), be(7, "u", NIL), bvp(7, "p", "1"), bep(7, "t", 7, "q", "[1]"), bv(9, "y")]),
        Op::Sync,
    ];
    let src: Vec<Query> = query_sources(true);
    let stg = query_stages(false);
    for depth in 0..=deep {
        let n = src.len() as u64 * (stg.len() as u64).pow(depth as u32);
        for i in 0..n {
            let q = nth_query(&src, &stg, depth, i);
            if depth < 2 || deep > 2 {
                ops.push(Op::Set(q.clone(), "p".into(), j("{\"a\":1}")));
                ops.push(Op::Delete(q.clone()));
            }
            ops.push(Op::Get(q));
        }
    }
    ops
}

fn mutants(cfg: &Cfg) -> Parts {
    let ops = requests(if cfg.thorough { 2 } else { 1 });
    let (n, names) = (ops.len() as u64, ops.clone());
    let bat = battery(&universe(), Depth::Full);
    let bat2 = bat.clone();
    let mut desk: Option<Desk> = None;
    let one = cases(
        "every change to every request",
        n,
        move |i, env: &mut Env| {
            let op = &ops[i as usize];
            let (path, _, msgs) = request(op);
            let mut all: Vec<(String, Vec<T>)> = vec![("unchanged".into(), msgs.clone())];
            for (k, m) in msgs.iter().enumerate() {
                for (what, c) in changes(m) {
                    let mut ms = msgs.clone();
                    ms[k] = c;
                    all.push((format!("message {k}: {what}"), ms));
                }
            }
            for (what, ms) in all {
                let fail = |e: String| Fail::new(&format!("{} | {what}", optext(op)), format!("{} with {what}: {e}", optext(op)));
                let means = meaning(path, &ms);
                // What the bytes mean, where they no longer say the same.
                let framed = ms.iter().all(utf8);
                let bytes: Vec<Vec<u8>> = ms.iter().map(|m| m.body()).collect();
                if desk.is_none() {
                    desk = Some(Desk::new().map_err(fail)?);
                }
                match send(desk.as_mut().unwrap(), path, bytes, means, framed, &bat, env) {
                    Ok(false) => {}
                    Ok(true) => desk = None,
                    Err(e) => {
                        desk = None;
                        return Err(fail(e));
                    }
                }
            }
            Ok(())
        },
        move |i| optext(&names[i as usize]),
    );
    // The bytes of requests, cut off anywhere.
    let mut ops: Vec<Op> = requests(0);
    ops.push(Op::Get(q_pipe(q_eq(q_incl(q_range(Some(id(7)), Some("x"), 3)), "p", &j("[1]"), true), false, Some("t"), 9)));
    ops.push(Op::Get(q_props(q_has(Query::AllEdge, "p", true), Some("p"))));
    let names: Vec<String> = ops.iter().map(optext).collect();
    let mut desk: Option<Desk> = None;
    let two = cases(
        "requests cut off after every byte",
        ops.len() as u64,
        move |i, env: &mut Env| {
            let op = &ops[i as usize];
            let (path, msg, msgs) = request(op);
            let bodies: Vec<Vec<u8>> = msgs.iter().map(|m| m.body()).collect();
            let last = bodies.len() - 1;
            for cut in 0..bodies[last].len() {
                let mut b = bodies.clone();
                b[last].truncate(cut);
                let what = format!("{} cut off after {cut} bytes", optext(op));
                let fail = |e: String| Fail::new(&what, format!("{what}: {e}"));
                let ts: Option<Vec<T>> = b.iter().map(|x| parse(msg, x)).collect();
                let (framed, means) = match ts {
                    None => (false, Err(Bad::Malformed)),
                    Some(ts) => (true, meaning(path, &ts)),
                };
                if desk.is_none() {
                    desk = Some(Desk::new().map_err(fail)?);
                }
                match send(desk.as_mut().unwrap(), path, b, means, framed, &bat2, env) {
                    Ok(false) => {}
                    Ok(true) => desk = None,
                    Err(e) => {
                        desk = None;
                        return Err(fail(e));
                    }
                }
            }
            Ok(())
        },
        move |i| names[i as usize].clone(),
    );
    vec![one, two]
}

/// Whether all texts are text, so that the message can be decoded at all.
fn utf8(t: &T) -> bool {
    match t {
        T::Msg(m, fs) => fs.iter().all(|(no, v)| match (schema(m).iter().find(|f| f.0 == *no), v) {
            (Some((_, K::Ident | K::Json, _)), T::Leaf(b)) => std::str::from_utf8(b).is_ok(),
            _ => utf8(v),
        }),
        _ => true,
    }
}

pub fn c22(cfg: &Cfg) -> Parts {
    let mut p = forms(cfg);
    p.extend(mutants(cfg));
    p
}
