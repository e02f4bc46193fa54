//! Observation: everything a user can ask a store, compared with the model.

use crate::model::*;
use crate::ops::*;
use crate::universe::Universe;
use indradb::{Query, QueryOutputValue};
use std::collections::BTreeMap;

pub fn mout(o: &QueryOutputValue) -> MOut {
    match o {
        QueryOutputValue::Vertices(v) => MOut::V(v.iter().map(|v| (v.id, v.t.to_string())).collect()),
        QueryOutputValue::Edges(e) => MOut::E(e.iter().map(ek).collect()),
        QueryOutputValue::Count(c) => MOut::Count(*c),
        QueryOutputValue::VertexProperties(p) => MOut::VP(
            p.iter()
                .map(|p| {
                    let ps = p.props.iter().map(|x| (x.name.to_string(), cj(&x.value))).collect();
                    ((p.vertex.id, p.vertex.t.to_string()), ps)
                })
                .collect(),
        ),
        QueryOutputValue::EdgeProperties(p) => MOut::EP(
            p.iter()
                .map(|p| {
                    let ps = p.props.iter().map(|x| (x.name.to_string(), cj(&x.value))).collect();
                    (ek(&p.edge), ps)
                })
                .collect(),
        ),
    }
}

fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 600 {
        format!("{}...", s.chars().take(600).collect::<String>())
    } else {
        s
    }
}

pub fn mout_text(o: &MOut) -> String {
    let props = |ps: &Vec<(String, Val)>| ps.iter().map(|(n, v)| format!("{}={v}", sn(n))).collect::<Vec<_>>().join(",");
    let s = match o {
        MOut::V(v) => format!("V{{{}}}", v.iter().map(|(i, t)| format!("{}:{}", sid(*i), sn(t))).collect::<Vec<_>>().join(" ")),
        MOut::E(v) => format!("E{{{}}}", v.iter().map(se).collect::<Vec<_>>().join(" ")),
        MOut::VP(v) => format!("VP{{{}}}", v.iter().map(|((i, _), p)| format!("{}({})", sid(*i), props(p))).collect::<Vec<_>>().join(" ")),
        MOut::EP(v) => format!("EP{{{}}}", v.iter().map(|(i, p)| format!("{}({})", se(i), props(p))).collect::<Vec<_>>().join(" ")),
        MOut::Count(c) => format!("count {c}"),
    };
    if s.len() > 700 {
        format!("{}...", s.chars().take(700).collect::<String>())
    } else {
        s
    }
}

pub fn ans_text(a: &Ans) -> String {
    match a {
        Ans::Out(o) => format!("[{}]", o.iter().map(mout_text).collect::<Vec<_>>().join("; ")),
        a => short(a),
    }
}

/// Runs a query and hands back its outputs as unordered data.
pub fn get<H: Handle + ?Sized>(db: &H, q: &Query) -> Ans {
    match db.ask(q.clone()) {
        Ok(o) => Ans::Out(o.iter().map(mout).collect()),
        Err(e) => Ans::Err(e),
    }
}

fn sorted(a: Ans) -> Ans {
    match a {
        Ans::Out(o) => Ans::Out(o.into_iter().map(|x| x.sorted()).collect()),
        a => a,
    }
}

pub fn expect(m: &Model, q: &Query) -> Ans {
    match m.eval(q) {
        Ok(o) => Ans::Out(o),
        Err(e) => Ans::Err(merr_text(&e)),
    }
}

/// Has some stage of the query an unordered input cut by a limit, so that the
/// outcome is not determined?
pub fn cuts(q: &Query) -> bool {
    let own = match q {
        Query::Pipe(p) => p.limit != u32::MAX,
        _ => false,
    };
    own || inner(q).map_or(false, cuts)
}

/// Is the outermost stage one whose order is promised (ascending ids)?
fn ordered(q: &Query) -> bool {
    matches!(q, Query::RangeVertex(_))
}

pub fn check_query<H: Handle + ?Sized>(db: &H, m: &Model, q: &Query) -> Result<(), String> {
    if cuts(q) {
        return verify(db, m, q);
    }
    let got = get(db, q);
    let want = expect(m, q);
    let (got, want) = if ordered(q) { (got, want) } else { (sorted(got), sorted(want)) };
    if got != want {
        return Err(format!("{}: got {}, expected {}", qtext(q), ans_text(&got), ans_text(&want)));
    }
    Ok(())
}

fn included(q: &Query) -> Query {
    // Adds an include around every intermediate stage that lacks one.
    match inner(q) {
        None => q.clone(),
        Some(i) => {
            let inc = included(i);
            let inc = if matches!(i, Query::Include(_)) || matches!(q, Query::Include(_)) { inc } else { q_incl(inc) };
            with_inner(q, inc)
        }
    }
}

fn chain(q: &Query) -> Vec<Query> {
    let mut v = vec![];
    let mut cur = Some(q);
    while let Some(c) = cur {
        v.push(c.clone());
        cur = inner(c);
    }
    v.reverse();
    v
}

fn submultiset<T: Ord + Clone>(a: &[T], b: &[T]) -> bool {
    let mut left: BTreeMap<&T, usize> = BTreeMap::new();
    for x in b {
        *left.entry(x).or_default() += 1;
    }
    a.iter().all(|x| match left.get_mut(x) {
        Some(n) if *n > 0 => {
            *n -= 1;
            true
        }
        _ => false,
    })
}

/// Every final part the choices left by a query's limits allow, if they are
/// not too many.
pub fn choices(m: &Model, q: &Query, most: usize) -> Option<Result<Vec<MOut>, MErr>> {
    let ins: Vec<Option<MOut>> = match inner(q) {
        None => vec![None],
        Some(i) => match choices(m, i, most)? {
            Ok(v) => v.into_iter().map(Some).collect(),
            Err(e) => return Some(Err(e)),
        },
    };
    let mut out: Vec<MOut> = vec![];
    for i in &ins {
        let one = match q {
            Query::Pipe(p) if p.limit != u32::MAX => {
                let mut free = p.clone();
                free.limit = u32::MAX;
                let k = p.limit as usize;
                match m.stage(&Query::Pipe(free), i.as_ref()) {
                    Ok(o) if most < usize::MAX && o.len().is_some_and(|n| n > k && k > 0 && n > 12) => return None,
                    Ok(MOut::V(v)) => Ok(subsets(&v, k).into_iter().map(MOut::V).collect()),
                    Ok(MOut::E(v)) => Ok(subsets(&v, k).into_iter().map(MOut::E).collect()),
                    Ok(_) => Ok(vec![]),
                    Err(e) => Err(e),
                }
            }
            _ => m.stage(q, i.as_ref()).map(|o| vec![o]),
        };
        match one {
            Ok(o) => out.extend(o),
            Err(e) => return Some(Err(e)),
        }
        if out.len() > most {
            return None;
        }
    }
    let mut out: Vec<MOut> = out.into_iter().map(|o| o.sorted()).collect();
    out.sort();
    out.dedup();
    Some(Ok(out))
}
fn subsets<T: Clone>(v: &[T], k: usize) -> Vec<Vec<T>> {
    if v.len() <= k {
        return vec![v.to_vec()];
    }
    if k == 0 {
        return vec![vec![]];
    }
    let mut out = subsets(&v[1..], k);
    for mut s in subsets(&v[1..], k - 1) {
        s.insert(0, v[0].clone());
        out.push(s);
    }
    out
}

/// Is this a possible final part of the query, as far as that can be told?
fn possible(m: &Model, q: &Query, last: &MOut) -> bool {
    if let Some(Ok(c)) = choices(m, q, 3000) {
        return c.contains(&last.clone().sorted());
    }
    // Only the last choice is open?
    let (mut cut, mut counted) = (q, false);
    while let Query::Include(_) | Query::Count(_) = cut {
        counted |= matches!(cut, Query::Count(_));
        cut = inner(cut).unwrap();
    }
    let Query::Pipe(p) = cut else { return true };
    if cuts(&p.inner) {
        return true;
    }
    let mut free = p.clone();
    free.limit = u32::MAX;
    let Ok(all) = m.last(&Query::Pipe(free)) else { return true };
    let n = all.len().unwrap_or(0).min(p.limit as usize);
    match (&all, last) {
        (_, MOut::Count(c)) => counted && *c == n as u64,
        (MOut::V(a), MOut::V(b)) => b.len() == n && submultiset(b, a),
        (MOut::E(a), MOut::E(b)) => b.len() == n && submultiset(b, a),
        _ => false,
    }
}

/// Checks a query whose limits cut unordered stages: runs it with every
/// intermediate included and checks each stage against the stage before, as
/// answered by the same execution.
pub fn verify<H: Handle + ?Sized>(db: &H, m: &Model, q: &Query) -> Result<(), String> {
    // The query as given must fail exactly when the model says so.
    let plain = get(db, q);
    let full = included(q);
    let got = get(db, &full);
    let outs = match (&got, m.eval(q)) {
        (Ans::Out(o), Ok(_)) => o.clone(),
        (Ans::Err(_), Err(me)) if got == Ans::Err(merr_text(&me)) && plain == got => return Ok(()),
        (_, w) => {
            let w = w.map(|_| "an answer").map_err(|e| merr_text(&e));
            return Err(format!("{}: got {}, expected {:?}", qtext(q), ans_text(&got), w));
        }
    };
    let stages: Vec<Query> = chain(&full).into_iter().filter(|s| !matches!(s, Query::Include(_))).collect();
    let stages_n = stages.len();
    if outs.len() != stages_n {
        return Err(format!("{}: {} outputs for {} stages", qtext(&full), outs.len(), stages_n));
    }
    for (k, s) in stages.iter().enumerate() {
        let input = if k == 0 { None } else { Some(&outs[k - 1]) };
        let what = || format!("stage {} of {}", k, qtext(&full));
        if let Query::Pipe(p) = s {
            let mut free = p.clone();
            free.limit = u32::MAX;
            let all = m.stage(&Query::Pipe(free), input).map_err(|e| format!("{}: {:?}", what(), e))?;
            let ok = match (&all, &outs[k]) {
                (MOut::V(a), MOut::V(b)) => b.len() == a.len().min(p.limit as usize) && submultiset(b, a),
                (MOut::E(a), MOut::E(b)) => b.len() == a.len().min(p.limit as usize) && submultiset(b, a),
                _ => false,
            };
            if !ok {
                return Err(format!(
                    "{}: from {} got {}, which is not {} of {}",
                    what(),
                    input.map_or(String::new(), mout_text),
                    mout_text(&outs[k]),
                    p.limit,
                    mout_text(&all)
                ));
            }
        } else {
            let want = m.stage(s, input).map_err(|e| format!("{}: {:?}", what(), e))?;
            if want.clone().sorted() != outs[k].clone().sorted() {
                return Err(format!("{}: got {}, expected {}", what(), mout_text(&outs[k]), mout_text(&want)));
            }
        }
    }
    // And the query as given must have the right number of parts, and a final
    // part that some choice explains.
    let parts = m.eval(q).map(|o| o.len()).unwrap_or(0);
    match &plain {
        Ans::Out(o) if o.len() == parts => match o.last() {
            Some(x) if !possible(m, q, x) => Err(format!("{}: got {}, which no choice explains", qtext(q), mout_text(x))),
            _ => Ok(()),
        },
        p => Err(format!("{}: got {}, expected {} parts", qtext(q), ans_text(p), parts)),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Depth {
    /// Listings, counts, all properties, index lookups.
    Core,
    /// Also every adjacency by type, filters, specific lookups, ranges.
    Full,
}

/// Every query of the battery for this universe.
pub fn battery(u: &Universe, depth: Depth) -> Vec<Query> {
    let av = || Query::AllVertex;
    let ae = || Query::AllEdge;
    let mut b = vec![
        av(),
        ae(),
        q_count(av()),
        q_count(ae()),
        q_range(None, None, u32::MAX),
        q_props(av(), None),
        q_props(ae(), None),
        q_pipe(av(), true, None, u32::MAX),
        q_pipe(av(), false, None, u32::MAX),
    ];
    for n in &u.names {
        b.push(q_vhas(n));
        b.push(q_ehas(n));
        for v in &u.vals {
            b.push(q_veq(n, v));
            b.push(q_eeq(n, v));
        }
    }
    if depth == Depth::Full {
        b.push(q_vs(&u.ids));
        for i in &u.ids {
            b.push(q_pipe(q_v(*i), true, None, u32::MAX));
            b.push(q_pipe(q_v(*i), false, None, u32::MAX));
            for t in &u.etypes {
                b.push(q_pipe(q_v(*i), true, Some(t), u32::MAX));
                b.push(q_pipe(q_v(*i), false, Some(t), u32::MAX));
            }
            b.push(q_range(Some(*i), None, u32::MAX));
        }
        for t in &u.vtypes {
            b.push(q_range(None, Some(t), u32::MAX));
            b.push(q_pipe(ae(), true, Some(t), u32::MAX));
        }
        b.push(q_pipe(ae(), true, None, u32::MAX));
        b.push(q_pipe(ae(), false, None, u32::MAX));
        let mut es = vec![];
        for a in &u.ids {
            for t in &u.etypes {
                for c in &u.ids {
                    es.push((*a, t.clone(), *c));
                }
            }
        }
        b.push(q_es(&es));
        for n in &u.names {
            b.push(q_props(av(), Some(n)));
            b.push(q_props(ae(), Some(n)));
            b.push(q_has(av(), n, true));
            b.push(q_has(av(), n, false));
            b.push(q_has(ae(), n, true));
            b.push(q_has(ae(), n, false));
            b.push(q_count(q_vhas(n)));
            b.push(q_count(q_ehas(n)));
            for v in u.vals.iter().take(2) {
                b.push(q_eq(av(), n, v, true));
                b.push(q_eq(av(), n, v, false));
                b.push(q_eq(ae(), n, v, true));
                b.push(q_eq(ae(), n, v, false));
            }
        }
    }
    b
}

/// Compares everything the battery asks. Returns how many queries were asked.
pub fn check_state<H: Handle + ?Sized>(db: &H, m: &Model, bat: &[Query]) -> Result<u64, String> {
    for q in bat {
        check_query(db, m, q)?;
    }
    Ok(bat.len() as u64)
}
