//! Refused operations and failures of the storage engine: C08.
use crate::seq::*;
use crate::shim;
use indradb::Query;
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{catch, Cfg, Env, Fail, Part};
use mc_core::universe::*;
use mc_core::with_db;

type Parts = Vec<Box<dyn Part>>;
const M: u32 = u32::MAX;

/// Requests that must be refused, or answered with 'not created', or that
/// select nothing: of every kind there is.
fn refused(a: u128, b: u128) -> Vec<Op> {
    let props = || q_props(Query::AllVertex, None);
    let count = || q_count(Query::AllVertex);
    let c = 77; // never created
    vec![
        cv(a, "y"),
        ce(a, "t", c),
        ce(c, "t", a),
        ce(c, "t", c),
        Op::Delete(count()),
        Op::Delete(q_count(Query::AllEdge)),
        Op::Delete(q_incl(count())),
        Op::Delete(q_vhas("never")),
        Op::Delete(q_eeq("never", &j("1"))),
        Op::Delete(q_has(Query::AllVertex, "never", true)),
        Op::Delete(q_pipe(count(), true, None, M)),
        Op::Delete(q_pipe(props(), true, None, M)),
        Op::Delete(q_props(count(), None)),
        Op::Delete(q_has(count(), "p", true)),
        Op::Delete(q_eq(count(), "p", &j("1"), false)),
        Op::Delete(q_has(props(), "p", true)),
        Op::Set(count(), "p".into(), j("1")),
        Op::Set(props(), "p".into(), j("1")),
        Op::Set(q_props(Query::AllEdge, Some("p")), "p".into(), j("1")),
        Op::Set(q_vhas("never"), "p".into(), j("1")),
        Op::Set(q_eq(Query::AllEdge, "never", &j("1"), true), "p".into(), j("1")),
        Op::Set(q_v(id(c)), "p".into(), j("9")),
        Op::Set(q_e(&key(a, "t", c)), "p".into(), j("9")),
        Op::Set(q_vs(&[]), "p".into(), j("9")),
        Op::Delete(q_v(id(c))),
        Op::Delete(q_e(&key(c, "t", b))),
        Op::Delete(q_es(&[])),
        Op::Delete(q_pipe(Query::AllVertex, true, None, 0)),
        Op::Delete(q_range(Some(id(MAXID)), Some("nope"), M)),
        Op::Bulk(vec![]),
        Op::Get(q_vhas("never")),
        Op::Get(q_pipe(count(), false, None, 1)),
        Op::Get(q_props(props(), None)),
        Op::Get(q_has(q_count(Query::AllEdge), "p", false)),
        Op::Get(q_range(None, None, 0)),
    ]
}

fn effective(a: u128, b: u128) -> Vec<Op> {
    vec![
        cv(a, "x"),
        cv(b, "x"),
        ce(a, "t", b),
        se_((a, "t", b), "p", "1"),
        sv(a, "p", "1"),
        dv(a),
        index("p"),
    ]
}

/// Everything a client can ask for, over a populated store.
fn requests() -> Vec<Op> {
    let e = key(1, "t", 2);
    let mut ops = vec![
        cv(9, "x"),
        cv(1, "x"),
        ce(2, "t", 1),
        ce(1, "t", 2),
        ce(1, "t", 77),
        ce(77, "t", 1),
        Op::Bulk(vec![
            bv(8, "x"), bv(9, "y"), be(8, "t", 9), be(1, "u", 8), bvp(8, "p", "5"), bvp(1, "p", "6"), bvp(8, "q", "5"),
            bep(8, "t", 9, "p", "7"), bep(1, "t", 2, "p", "8"), bvp(8, "p", "9"),
        ]),
        Op::Bulk(vec![bv(8, "x")]),
        Op::Bulk(vec![bvp(1, "p", "6"), bvp(1, "p", "7"), bvp(2, "q", "7")]),
        Op::Set(Query::AllVertex, "p".into(), j("3")),
        Op::Set(Query::AllEdge, "p".into(), j("3")),
        Op::Set(q_v(id(1)), "new".into(), j("3")),
        Op::Set(q_e(&e), "q".into(), j("3")),
        Op::Set(q_pipe(q_v(id(1)), true, None, M), "p".into(), j("[1]")),
        Op::Set(q_pipe(q_pipe(q_v(id(1)), true, None, M), false, None, M), "p".into(), j("[1]")),
        Op::Set(q_has(Query::AllVertex, "p", true), "p".into(), j("[1]")),
        Op::Set(q_veq("p", &j("1")), "q".into(), j("4")),
        Op::Delete(Query::AllVertex),
        Op::Delete(Query::AllEdge),
        Op::Delete(q_v(id(1))),
        Op::Delete(q_e(&e)),
        Op::Delete(q_vs(&[id(1), id(77), id(2)])),
        Op::Delete(q_es(&[e.clone(), key(2, "t", 77)])),
        Op::Delete(q_pipe(q_v(id(2)), false, Some("t"), M)),
        Op::Delete(q_pipe(q_pipe(q_v(id(2)), false, Some("t"), M), true, None, M)),
        Op::Delete(q_props(Query::AllVertex, None)),
        Op::Delete(q_props(Query::AllEdge, None)),
        Op::Delete(q_props(Query::AllVertex, Some("p"))),
        Op::Delete(q_props(q_e(&e), Some("p"))),
        Op::Delete(q_vhas("p")),
        Op::Delete(q_ehas("p")),
        Op::Delete(q_veq("p", &j("1"))),
        Op::Delete(q_eeq("p", &j("1"))),
        Op::Delete(q_eq(Query::AllVertex, "p", &j("1"), false)),
        Op::Delete(q_has(Query::AllEdge, "p", false)),
        index("p"),
        index("q"),
        index("new"),
        Op::Sync,
    ];
    let av = || Query::AllVertex;
    let ae = || Query::AllEdge;
    for q in [
        av(),
        ae(),
        q_range(None, None, M),
        q_range(Some(id(2)), Some("x"), 1),
        q_vs(&[id(2), id(1), id(77)]),
        q_es(&[e.clone(), key(2, "t", 77)]),
        q_count(av()),
        q_count(ae()),
        q_count(q_range(None, None, M)),
        q_count(q_pipe(av(), true, None, M)),
        q_props(av(), None),
        q_props(ae(), None),
        q_props(av(), Some("p")),
        q_props(ae(), Some("p")),
        q_pipe(av(), true, None, M),
        q_pipe(av(), false, None, M),
        q_pipe(av(), true, Some("t"), 1),
        q_pipe(q_v(id(2)), false, Some("t"), M),
        q_pipe(ae(), true, None, M),
        q_pipe(ae(), false, Some("x"), M),
        q_vhas("p"),
        q_ehas("p"),
        q_veq("p", &j("1")),
        q_eeq("p", &j("1")),
        q_has(av(), "p", true),
        q_has(av(), "p", false),
        q_has(ae(), "p", true),
        q_has(ae(), "p", false),
        q_eq(av(), "p", &j("1"), true),
        q_eq(av(), "p", &j("1"), false),
        q_eq(ae(), "p", &j("1"), true),
        q_eq(ae(), "p", &j("1"), false),
        q_incl(q_pipe(q_incl(av()), true, None, M)),
        q_props(q_pipe(q_vhas("p"), true, None, M), None),
    ] {
        ops.push(Op::Get(q));
    }
    ops
}

fn populated(indexed: bool, size: u128) -> Vec<Op> {
    let mut ops = vec![];
    if indexed {
        ops.push(index("p"));
    }
    for a in 1..=size {
        ops.push(cv(a, if a % 2 == 0 { "y" } else { "x" }));
    }
    for a in 1..=size {
        let b = a % size + 1;
        ops.push(ce(a, "t", b));
        ops.push(ce(a, "u", a));
        ops.push(sv(a, "p", "1"));
        ops.push(sv(a, "q", "\"s\""));
        ops.push(se_((a, "t", b), "p", "1"));
        ops.push(se_((a, "u", a), "p", "2"));
    }
    ops
}

struct Engine {
    name: String,
    states: Vec<(String, Vec<Op>)>,
    ops: Vec<Op>,
    uni: Universe,
}

impl Engine {
    fn at(&self, i: u64) -> (usize, usize, bool) {
        let i = i as usize;
        let (sticky, i) = (i % 2 == 1, i / 2);
        (i / self.ops.len(), i % self.ops.len(), sticky)
    }
}

impl Part for Engine {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        (self.states.len() * self.ops.len() * 2) as u64
    }
    fn text(&self, i: u64) -> String {
        let (s, o, sticky) = self.at(i);
        format!("in {}: {} with {} storage call failing, in turn", self.states[s].0, optext(&self.ops[o]), if sticky { "every later" } else { "one" })
    }
    fn run(&mut self, i: u64, env: &mut Env) -> Result<(), Fail> {
        let (s, o, sticky) = self.at(i);
        let op = &self.ops[o];
        let bat = battery(&self.uni, Depth::Full);
        let mut at = 0;
        'setup: loop {
            let mut live = Live::fresh(Store::Rocks, env).map_err(|e| Fail::new("open", e))?;
            let mut t = Track::default();
            for p in &self.states[s].1 {
                step(&mut live, &mut t, p).map_err(|e| Fail::new("setup", e))?;
            }
            loop {
                at += 1;
                let mut after = t.clone();
                shim::arm(at, sticky);
                let got = catch(|| with_db!(&live.db, db => apply(db, op)));
                let (calls, hit) = shim::disarm();
                let ctx = |w: String| {
                    let what = if hit.is_empty() { "no failure".to_string() } else { format!("failure of storage call {at} ({})", hit[0]) };
                    Fail::new(&format!("{} {w}", optext(op)), format!("in {}: {} with {what}{}: {w}", self.states[s].0, optext(op), if sticky { " and every later one" } else { "" }))
                };
                let got = got.map_err(|p| ctx(format!("panic: {p}")))?;
                env.count("operations under fault", 1);
                // The right answer and effect, or an error and no effect.
                let failed = !hit.is_empty() && matches!(got, Ans::Err(_));
                if !failed {
                    let want = match op {
                        Op::Get(q) => {
                            if let Err(e) = with_db!(&live.db, db => compare_answer(db, &t.m, q, &got)) {
                                let mut f = ctx("the answer is a success, but it is wrong".to_string());
                                f.what += &format!(": {e}");
                                return Err(f);
                            }
                            got.clone()
                        }
                        _ => with_db!(&live.db, db => apply_model(&mut after.m, op, db)).map_err(ctx)?,
                    };
                    if want != got {
                        return Err(ctx(format!("answered {}, expected {}", ans_text(&got), ans_text(&want))));
                    }
                }
                let m = if failed { &t.m } else { &after.m };
                let n = live.check(m, &bat).map_err(|e| ctx(format!("{}; afterwards {e}", if failed { "it failed" } else { "it succeeded" })))?;
                env.count("queries compared", n);
                env.state(model_hash(m, "") ^ at);
                if hit.is_empty() {
                    // All of the calls have been failed in turn, and it was
                    // then carried out as if nothing had happened before.
                    env.count("storage calls failed", at - 1);
                    let _ = calls;
                    // The same after closing and opening the store again.
                    live.reopen().map_err(|e| ctx(format!("afterwards {e}")))?;
                    live.check(m, &bat).map_err(|e| ctx(format!("after reopening: {e}")))?;
                    let mut t = if failed { t } else { after };
                    let n = aftermath(&mut live, &mut t, &bat).map_err(|e| ctx(format!("later, {e}")))?;
                    env.count("queries compared", n);
                    return Ok(());
                }
                if after.m != t.m {
                    // It succeeded in spite of the failure. Nothing is left
                    // that shows later; start over.
                    let n = aftermath(&mut live, &mut after, &bat).map_err(|e| ctx(format!("it succeeded; later, {e}")))?;
                    env.count("queries compared", n);
                    continue 'setup;
                }
            }
        }
    }
}

/// Everything is created (again), indexed, deleted and created once more: what
/// an operation has left behind shows.
fn aftermath(live: &mut Live, t: &mut Track, bat: &[Query]) -> Result<u64, String> {
    let mut made = vec![];
    for a in 1..=3 {
        made.push(cv(a, "x"));
    }
    for (a, b) in [(1, 2), (2, 1), (2, 3), (3, 1), (1, 1), (2, 2), (3, 3)] {
        made.extend([ce(a, "t", b), ce(a, "u", b)]);
    }
    let mut n = 0;
    let mut go = |ops: &[Op], t: &mut Track| -> Result<(), String> {
        for op in ops {
            step(live, t, op)?;
        }
        n += live.check(&t.m, bat)?;
        Ok(())
    };
    go(&made, t).map_err(|e| format!("when everything had been created: {e}"))?;
    go(&[index("q"), index("new"), index("p")], t).map_err(|e| format!("when all was indexed: {e}"))?;
    go(&[Op::Delete(Query::AllVertex)], t).map_err(|e| format!("when everything had been deleted: {e}"))?;
    go(&made, t).map_err(|e| format!("when everything had been created again: {e}"))?;
    Ok(n)
}

/// Whether an answer to a query is the right one.
fn compare_answer<H: Handle + ?Sized>(db: &H, m: &Model, q: &Query, got: &Ans) -> Result<(), String> {
    // Asked again without a failure; that the second answer is right is
    // checked against the model.
    check_query(db, m, q)?;
    let sort = |a: &Ans| match a {
        Ans::Out(o) => Ans::Out(o.iter().map(|x| x.clone().sorted()).collect()),
        a => a.clone(),
    };
    if sort(&get(db, q)) == sort(got) {
        Ok(())
    } else {
        Err("different answers".into())
    }
}

pub fn c08(cfg: &Cfg) -> Parts {
    let mut p: Parts = vec![];
    let t = cfg.thorough;
    for s in BOTH {
        // Refused requests anywhere in a history.
        let mut ops = effective(1, 2);
        ops.extend(refused(1, 2));
        let u = Universe::new(&[1, 2, 77], &["x", "y"], &["t"], &["p", "never"], &["1", "9"]);
        let sc = Scope::new("refused", s, ops.clone(), u.clone());
        p.push(Tree::new(sc.clone(), if t { 3 } else { 2 }));
        p.push(Graph::new(sc.clone(), if t { 8 } else { 6 }, if t { 4 } else { 2 }));
        let mut ops = effective(NIL, MAXID);
        ops.extend(refused(NIL, MAXID));
        let u = Universe::new(&[NIL, MAXID, 77], &["x", "y"], &["t"], &["p", "never"], &["1", "9"]);
        p.push(Graph::new(Scope::new("refused, extreme ids", s, ops, u), if t { 8 } else { 5 }, 2));
    }
    let u = Universe::new(&[1, 2, 3, 8, 9], &["x", "y"], &["t", "u"], &["p", "q", "new"], &["1", "2", "3", "5", "6", "9", "[1]", "\"s\""]);
    let mut states = vec![
        ("an empty store".to_string(), vec![]),
        ("two vertices".into(), populated(false, 2)),
        ("two vertices, p indexed".into(), populated(true, 2)),
    ];
    if t {
        states.push(("three vertices, p indexed".into(), populated(true, 3)));
        let mut ops = populated(true, 2);
        ops.push(index("q"));
        ops.push(dv(2));
        states.push(("one vertex, p and q indexed".into(), ops));
    }
    p.push(Box::new(Engine { name: "storage failures".into(), states, ops: requests(), uni: u }));
    p
}
