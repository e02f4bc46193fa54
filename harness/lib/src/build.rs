//! C32: queries put together by the provided methods, and what reads results.

use indradb::*;
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{catch, Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use std::result::Result;
use std::str::FromStr;

type Parts = Vec<Box<dyn Part>>;
const M: u32 = u32::MAX;

/// A query under construction, in the type that the library gave.
#[derive(Clone)]
enum B {
    AllVertex(AllVertexQuery),
    Range(RangeVertexQuery),
    Vs(SpecificVertexQuery),
    Vhas(VertexWithPropertyPresenceQuery),
    Veq(VertexWithPropertyValueQuery),
    AllEdge(AllEdgeQuery),
    Es(SpecificEdgeQuery),
    Ehas(EdgeWithPropertyPresenceQuery),
    Eeq(EdgeWithPropertyValueQuery),
    Pipe(PipeQuery),
    Props(PipePropertyQuery),
    Has(PipeWithPropertyPresenceQuery),
    Eq(PipeWithPropertyValueQuery),
    Incl(IncludeQuery),
    Count(CountQuery),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Pipe(bool),
    With(&'static str, bool),
    Equal(&'static str, &'static str, bool),
    Props,
    Include,
    Count,
    /// The same, by the constructor instead of the method.
    NewPipe(bool),
    NewWith(&'static str, bool),
    NewEqual(&'static str, &'static str, bool),
    NewProps,
    NewInclude,
    NewCount,
    Limit(u32),
    T(&'static str),
    Start(u128),
    Name(&'static str),
}
use Step::*;

const STEPS: [Step; 28] = [
    Pipe(true), Pipe(false), With("p", true), With("q", false), Equal("p", "1", true), Equal("q", "null", false), Props, Include, Step::Count,
    NewPipe(true), NewPipe(false), NewWith("p", false), NewWith("q", true), NewEqual("p", "2", false), NewEqual("", "{}", true), NewProps,
    NewInclude, NewCount,
    Limit(0), Limit(3), Limit(M), T("t"), T("x"), Start(NIL), Start(7), Start(MAXID), Name("p"), Name(""),
];

fn sources() -> Vec<(&'static str, B, Query)> {
    let ids = vec![id(7), id(NIL), id(7)];
    let es = vec![key(NIL, "t", 7), key(7, "t", 7), key(NIL, "t", 7)];
    let ev = |k: &[EKey]| k.iter().map(edge_of).collect::<Vec<_>>();
    vec![
        ("AllVertexQuery", B::AllVertex(AllVertexQuery), Query::AllVertex),
        ("RangeVertexQuery::new()", B::Range(RangeVertexQuery::new()), q_range(None, None, M)),
        ("RangeVertexQuery::default()", B::Range(RangeVertexQuery::default()), q_range(None, None, M)),
        ("SpecificVertexQuery::new([7,0,7])", B::Vs(SpecificVertexQuery::new(ids.clone())), q_vs(&ids)),
        ("SpecificVertexQuery::new([])", B::Vs(SpecificVertexQuery::new(vec![])), q_vs(&[])),
        ("SpecificVertexQuery::single(max)", B::Vs(SpecificVertexQuery::single(id(MAXID))), q_vs(&[id(MAXID)])),
        ("VertexWithPropertyPresenceQuery::new(p)", B::Vhas(VertexWithPropertyPresenceQuery::new(ident("p"))), q_vhas("p")),
        ("VertexWithPropertyValueQuery::new(p,1)", B::Veq(VertexWithPropertyValueQuery::new(ident("p"), j("1"))), q_veq("p", &j("1"))),
        ("AllEdgeQuery", B::AllEdge(AllEdgeQuery), Query::AllEdge),
        ("SpecificEdgeQuery::new(3)", B::Es(SpecificEdgeQuery::new(ev(&es))), q_es(&es)),
        ("SpecificEdgeQuery::new([])", B::Es(SpecificEdgeQuery::new(vec![])), q_es(&[])),
        ("SpecificEdgeQuery::single", B::Es(SpecificEdgeQuery::single(edge_of(&es[1]))), q_es(&es[1..2])),
        ("EdgeWithPropertyPresenceQuery::new(p)", B::Ehas(EdgeWithPropertyPresenceQuery::new(ident("p"))), q_ehas("p")),
        ("EdgeWithPropertyValueQuery::new(p,1)", B::Eeq(EdgeWithPropertyValueQuery::new(ident("p"), j("1"))), q_eeq("p", &j("1"))),
    ]
}

impl B {
    fn query(self) -> Query {
        match self {
            B::AllVertex(q) => q.into(),
            B::Range(q) => q.into(),
            B::Vs(q) => q.into(),
            B::Vhas(q) => q.into(),
            B::Veq(q) => q.into(),
            B::AllEdge(q) => q.into(),
            B::Es(q) => q.into(),
            B::Ehas(q) => q.into(),
            B::Eeq(q) => q.into(),
            B::Pipe(q) => q.into(),
            B::Props(q) => q.into(),
            B::Has(q) => q.into(),
            B::Eq(q) => q.into(),
            B::Incl(q) => q.into(),
            B::Count(q) => q.into(),
        }
    }
    /// `None`: there is no such method.
    fn step(self, s: Step) -> Option<Result<B, ValidationError>> {
        fn ext<Q: QueryExt + CountQueryExt>(q: Q, s: Step) -> Option<Result<B, ValidationError>> {
            Some(match s {
                Pipe(true) => q.outbound().map(B::Pipe),
                Pipe(false) => q.inbound().map(B::Pipe),
                With(n, true) => q.with_property(ident(n)).map(B::Has),
                With(n, false) => q.without_property(ident(n)).map(B::Has),
                Equal(n, v, true) => q.with_property_equal_to(ident(n), j(v)).map(B::Eq),
                Equal(n, v, false) => q.with_property_not_equal_to(ident(n), j(v)).map(B::Eq),
                Props => q.properties().map(B::Props),
                Include => Ok(B::Incl(q.include())),
                Step::Count => q.count().map(B::Count),
                _ => return None,
            })
        }
        let b = |q: B| Box::new(q.query());
        Some(match (self, s) {
            (B::Range(q), Limit(n)) => Ok(B::Range(q.limit(n))),
            (B::Range(q), T(t)) => Ok(B::Range(q.t(ident(t)))),
            (B::Range(q), Start(i)) => Ok(B::Range(q.start_id(id(i)))),
            (B::Pipe(q), Limit(n)) => Ok(B::Pipe(q.limit(n))),
            (B::Pipe(q), T(t)) => Ok(B::Pipe(q.t(ident(t)))),
            (B::Props(q), Name(n)) => Ok(B::Props(q.name(ident(n)))),
            (B::Props(q), Step::Count) => q.count().map(B::Count),
            (q, NewPipe(out)) => PipeQuery::new(b(q), if out { EdgeDirection::Outbound } else { EdgeDirection::Inbound }).map(B::Pipe),
            (q, NewWith(n, x)) => PipeWithPropertyPresenceQuery::new(b(q), ident(n), x).map(B::Has),
            (q, NewEqual(n, v, x)) => PipeWithPropertyValueQuery::new(b(q), ident(n), j(v), x).map(B::Eq),
            (q, NewProps) => PipePropertyQuery::new(b(q)).map(B::Props),
            (q, NewInclude) => Ok(B::Incl(IncludeQuery::new(b(q)))),
            (q, NewCount) => CountQuery::new(b(q)).map(B::Count),
            (B::AllVertex(q), s) => return ext(q, s),
            (B::Range(q), s) => return ext(q, s),
            (B::Vs(q), s) => return ext(q, s),
            (B::Vhas(q), s) => return ext(q, s),
            (B::Veq(q), s) => return ext(q, s),
            (B::AllEdge(q), s) => return ext(q, s),
            (B::Es(q), s) => return ext(q, s),
            (B::Ehas(q), s) => return ext(q, s),
            (B::Eeq(q), s) => return ext(q, s),
            (B::Pipe(q), s) => return ext(q, s),
            (B::Has(q), s) => return ext(q, s),
            (B::Eq(q), s) => return ext(q, s),
            (B::Incl(q), s) => return ext(q, s),
            (B::Props(_) | B::Count(_), _) => return None,
        })
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Gives {
    Elements,
    Props,
    Count,
}

/// What a step makes of a query: `None` if it has to be refused.
fn meaning(q: &Query, g: Gives, s: Step) -> Option<(Query, Gives)> {
    let q = q.clone();
    let el = g == Gives::Elements;
    match s {
        Pipe(o) | NewPipe(o) => el.then(|| (q_pipe(q, o, None, M), g)),
        With(n, x) | NewWith(n, x) => el.then(|| (q_has(q, n, x), g)),
        Equal(n, v, x) | NewEqual(n, v, x) => el.then(|| (q_eq(q, n, &j(v), x), g)),
        Props | NewProps => el.then(|| (q_props(q, None), Gives::Props)),
        Include | NewInclude => Some((q_incl(q), g)),
        Step::Count | NewCount => (g != Gives::Count).then(|| (q_count(q), Gives::Count)),
        Limit(_) | T(_) | Start(_) | Name(_) => {
            let mut q = q;
            match (&mut q, s) {
                (Query::RangeVertex(r), Limit(n)) => r.limit = n,
                (Query::RangeVertex(r), T(t)) => r.t = Some(ident(t)),
                (Query::RangeVertex(r), Start(i)) => r.start_id = Some(id(i)),
                (Query::Pipe(r), Limit(n)) => r.limit = n,
                (Query::Pipe(r), T(t)) => r.t = Some(ident(t)),
                (Query::PipeProperty(r), Name(n)) => r.name = Some(ident(n)),
                _ => unreachable!("the library has a method that the model does not"),
            }
            Some((q, g))
        }
    }
}

struct Walk<'a> {
    /// Questions are put to these.
    on: &'a mut Vec<OnGraph>,
    asked: usize,
    depth: usize,
    calls: u64,
    refused: u64,
    queries: u64,
    states: Vec<u64>,
}
impl Walk<'_> {
    fn go(&mut self, b: &B, q: &Query, g: Gives, done: &mut Vec<Step>) -> Result<(), String> {
        let same = b.clone().query();
        if same != *q {
            return Err(format!("{} came out", qtext(&same)));
        }
        if done.len() <= self.asked {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            std::hash::Hash::hash(&qtext(q), &mut h);
            self.states.push(std::hash::Hasher::finish(&h));
            for o in self.on.iter() {
                let live = o.live.as_ref().unwrap();
                mc_core::with_db!(&live.db, db => check_query(db, &o.t.m, &same)).map_err(|e| format!("on {:?}: {e}", live.store))?;
                read(live, q, g)?;
                self.queries += 1;
            }
        }
        if done.len() == self.depth {
            return Ok(());
        }
        for s in STEPS {
            let Some(got) = b.clone().step(s) else { continue };
            self.calls += 1;
            done.push(s);
            match (got, meaning(q, g, s)) {
                (Ok(b2), Some((q2, g2))) => self.go(&b2, &q2, g2, done)?,
                (Err(ValidationError::InnerQuery), None) => self.refused += 1,
                (Err(e), _) => return Err(format!("the last step was refused: {e:?}")),
                (Ok(b2), None) => return Err(format!("the last step gave {}", qtext(&b2.query()))),
            }
            done.pop();
        }
        Ok(())
    }
}

/// The readers of results take exactly the last part, if it is theirs.
fn read(live: &Live, q: &Query, g: Gives) -> Result<(), String> {
    let out = match &live.db {
        AnyDb::Mem(db) => db.get(q.clone()),
        AnyDb::Rocks(db) => db.get(q.clone()),
        _ => unreachable!(),
    };
    let Ok(out) = out else { return Ok(()) };
    readers(&out)?;
    let ok = match (out.last(), g) {
        (Some(QueryOutputValue::Vertices(_) | QueryOutputValue::Edges(_)), Gives::Elements) => true,
        (Some(QueryOutputValue::VertexProperties(_) | QueryOutputValue::EdgeProperties(_)), Gives::Props) => true,
        (Some(QueryOutputValue::Count(_)), Gives::Count) => true,
        _ => false,
    };
    if !ok {
        return Err(format!("the result ends with {:?}", out.last()));
    }
    Ok(())
}

fn readers(out: &[QueryOutputValue]) -> Result<(), String> {
    use indradb::util::*;
    let last = out.last();
    let bad = |what: &str| Err(format!("{what} of {out:?}"));
    let want = if let Some(QueryOutputValue::Vertices(v)) = last { Some(v.iter().map(|x| (x.id, x.t)).collect::<Vec<_>>()) } else { None };
    if extract_vertices(out.to_vec()).map(|v| v.iter().map(|x| (x.id, x.t)).collect()) != want {
        return bad("extract_vertices");
    }
    let want = if let Some(QueryOutputValue::Edges(v)) = last { Some(v.clone()) } else { None };
    if extract_edges(out.to_vec()) != want {
        return bad("extract_edges");
    }
    let want = if let Some(QueryOutputValue::Count(v)) = last { Some(*v) } else { None };
    if extract_count(out.to_vec()) != want {
        return bad("extract_count");
    }
    let want = if let Some(QueryOutputValue::VertexProperties(v)) = last { Some(v.clone()) } else { None };
    if extract_vertex_properties(out.to_vec()) != want {
        return bad("extract_vertex_properties");
    }
    let want = if let Some(QueryOutputValue::EdgeProperties(v)) = last { Some(v.clone()) } else { None };
    if extract_edge_properties(out.to_vec()) != want {
        return bad("extract_edge_properties");
    }
    Ok(())
}

pub fn c32(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let t = cfg.thorough;
    let depth = if t { 6 } else { 5 };
    let asked = 3;
    let n = sources().len() as u64;
    let k = STEPS.len() as u64;
    let text = |i: u64| format!("{} {:?}", sources()[(i / STEPS.len() as u64) as usize].0, STEPS[(i % STEPS.len() as u64) as usize]);
    let mut on: Option<Vec<OnGraph>> = None;
    p.push(cases(
        &format!("programs of {depth} steps, asked up to {asked}"),
        n * k,
        move |i, env: &mut Env| {
            if on.is_none() {
                let mut v = vec![];
                for s in [Store::Mem, Store::Rocks] {
                    for g in query_graphs().iter().take(2) {
                        v.push(built(s, g, env)?);
                    }
                }
                on = Some(v);
            }
            let (name, b, q) = sources().swap_remove((i / k) as usize);
            let s = STEPS[(i % k) as usize];
            let mut w = Walk { on: on.as_mut().unwrap(), asked, depth, calls: 1, refused: 0, queries: 0, states: vec![] };
            let mut done = vec![];
            let r = catch(|| -> Result<(), String> {
                // The source itself, and then the first step.
                let d = std::mem::replace(&mut w.depth, 0);
                w.go(&b, &q, Gives::Elements, &mut done)?;
                w.depth = d;
                let Some(got) = b.clone().step(s) else { return Ok(()) };
                done.push(s);
                match (got, meaning(&q, Gives::Elements, s)) {
                    (Ok(b2), Some((q2, g2))) => w.go(&b2, &q2, g2, &mut done),
                    (Err(e), _) => Err(format!("the last step was refused: {e:?}")),
                    (Ok(_), None) => unreachable!(),
                }
            });
            let r = match r {
                Ok(r) => r,
                Err(p) => Err(format!("panic: {p}")),
            };
            for h in &w.states {
                env.state(*h);
            }
            env.count("steps taken", w.calls);
            env.count("steps refused as they should be", w.refused);
            env.count("queries put to databases", w.queries);
            r.map_err(|e| {
                let e: String = e.chars().take(600).collect();
                Fail::new(&format!("programs | {name} {done:?}"), format!("[programs] {name} {done:?}: {e}"))
            })
        },
        text,
    ));
    // Lists of results, read.
    let (vt, vt2) = (Vertex::with_id(id(1), ident("x")), Vertex::with_id(id(MAXID), ident("y")));
    let e = edge_of(&key(1, "t", 2));
    let np = NamedProperty::new(ident("p"), j("1"));
    let outs = vec![
        QueryOutputValue::Vertices(vec![]),
        QueryOutputValue::Vertices(vec![vt.clone(), vt2.clone(), vt.clone()]),
        QueryOutputValue::Edges(vec![]),
        QueryOutputValue::Edges(vec![e.clone(), e.reversed()]),
        QueryOutputValue::Count(0),
        QueryOutputValue::Count(u64::MAX),
        QueryOutputValue::VertexProperties(vec![]),
        QueryOutputValue::VertexProperties(vec![VertexProperties::new(vt.clone(), vec![np.clone()]), VertexProperties::new(vt2, vec![])]),
        QueryOutputValue::EdgeProperties(vec![]),
        QueryOutputValue::EdgeProperties(vec![EdgeProperties::new(e.clone(), vec![np.clone(), np])]),
    ];
    let len = outs.len() as u64;
    let lists = move |i: u64| -> Vec<QueryOutputValue> {
        let (mut i, mut n) = (i, 0);
        while i >= len.pow(n) {
            i -= len.pow(n);
            n += 1;
        }
        (0..n).map(|k| outs[(i / len.pow(k) % len) as usize].clone()).collect()
    };
    let lists2 = lists.clone();
    p.push(cases(
        "results of up to 3 parts, read",
        1 + len + len.pow(2) + len.pow(3),
        move |i, env: &mut Env| {
            env.count("results read", 5);
            readers(&lists(i)).map_err(|e| Fail::new(&format!("results | {i}"), format!("[results] {e}")))
        },
        move |i| format!("{:?}", lists2(i)),
    ));
    // Directions by name: every string that is one edit away, and more.
    let mut names: Vec<String> = vec!["".into(), "in".into(), "out".into(), "both".into(), "0".into(), "1".into(), "outboundinbound".into()];
    for w in ["outbound", "inbound"] {
        for k in 0..=w.len() {
            names.push(w[..k].into());
            names.push(w[k..].into());
            for c in [" ", "a", "\0", "é"] {
                names.push(format!("{}{c}{}", &w[..k], &w[k..]));
            }
            if k < w.len() {
                names.push(format!("{}{}", &w[..k], &w[k + 1..]));
                names.push(format!("{}{}{}", &w[..k], w[k..k + 1].to_uppercase(), &w[k + 1..]));
            }
        }
        names.push(w.to_uppercase());
    }
    let names2 = names.clone();
    p.push(cases(
        "directions by name",
        names.len() as u64,
        move |i, env: &mut Env| {
            env.count("names read", 1);
            let n = &names[i as usize];
            let want = match n.as_str() {
                "outbound" => Some(EdgeDirection::Outbound),
                "inbound" => Some(EdgeDirection::Inbound),
                _ => None,
            };
            let got = EdgeDirection::from_str(n).ok();
            if got != want || got.is_some_and(|d| String::from(d) != *n) {
                return Err(Fail::new(&format!("directions | {n:?}"), format!("[directions] {n:?} is read as {got:?}")));
            }
            Ok(())
        },
        move |i| format!("{:?}", names2[i as usize]),
    ));
    p
}
