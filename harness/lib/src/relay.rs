//! A store that goes from process to process: each of them opens it, finds
//! what the ones before left, changes something and leaves it. Nothing that
//! is kept may depend on the process that kept it.

use crate::seq::*;
use indradb::{Database, MemoryDatastore, Query};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::*;
use mc_core::ops::*;
use mc_core::run::{catch, Cfg, Fail, Part};
use mc_core::universe::*;
use std::path::{Path, PathBuf};
use std::process::Command;

struct Track {
    store: Store,
    name: &'static str,
    start: Vec<Op>,
    then: Vec<Op>,
    uni: Universe,
}

fn tracks() -> Vec<Track> {
    let e = (1, "t", 2);
    let then = vec![
        cv(1, "x"),
        cv(2, "y"),
        ce(1, "t", 2),
        ce(2, "t", 1),
        dv(2),
        de(1, "t", 2),
        sv(1, "p", "1"),
        Op::Set(Query::AllVertex, "p".into(), j("{\"b\":1,\"a\":[\"2\"]}")),
        se_(e, "p", "\"two\""),
        dvp(1, Some("p")),
        dep(e, None),
        index("p"),
        index("q"),
        Op::Delete(q_veq("p", &j("1"))),
        Op::Delete(q_props(q_eeq("p", &j("\"two\"")), Some("p"))),
        Op::Bulk(vec![bv(1, "x"), bv(2, "y"), be(1, "t", 2), bvp(1, "p", "1"), bep(1, "t", 2, "q", "\"two\"")]),
    ];
    let u = Universe::new(&[1, 2], &["x", "y"], &["t"], &["p", "q"], &["1", "\"two\"", "{\"a\":[\"2\"],\"b\":1}"]);
    let populated = vec![
        cv(1, "x"), cv(2, "y"), ce(1, "t", 2), ce(2, "t", 1), index("p"), sv(1, "p", "1"), sv(2, "p", "{\"a\":[\"2\"],\"b\":1}"),
        se_(e, "p", "\"two\""), sv(1, "q", "1"),
    ];
    // Values of every kind, on a vertex and an edge each.
    let values = confusable(false);
    let mut items = vec![];
    for (k, v) in values.iter().enumerate() {
        let n = k as u128 + 10;
        items.extend([bv(n, "x"), be(n, "t", n), bvp(n, "p", v), bep(n, "t", n, "p", v)]);
    }
    let texts: Vec<&str> = values.iter().map(String::as_str).collect();
    let uv = Universe::new(&[10, 11, 12], &["x"], &["t"], &["p"], &texts);
    let mut on_values: Vec<Op> = vec![index("p"), dv(10)];
    for v in texts.iter().step_by(3) {
        on_values.push(Op::Delete(q_veq("p", &j(v))));
        on_values.push(Op::Delete(q_props(q_eeq("p", &j(v)), None)));
    }
    let mut out = vec![];
    for store in [Store::MemFile, Store::Rocks] {
        out.push(Track { store, name: "new", start: vec![], then: then.clone(), uni: u.clone() });
        out.push(Track { store, name: "populated", start: populated.clone(), then: then.clone(), uni: u.clone() });
        let start = vec![index("p"), Op::Bulk(items.clone())];
        out.push(Track { store, name: "values", start, then: on_values.clone(), uni: uv.clone() });
    }
    out
}

enum Any {
    Mem(Database<MemoryDatastore>),
    Rocks(Database<indradb::RocksdbDatastore>),
}

fn model_of(t: &Track, done: &[usize]) -> Result<Model, String> {
    let shadow = MemoryDatastore::new_db();
    let mut m = Model::default();
    for op in t.start.iter().chain(done.iter().map(|k| &t.then[*k])) {
        apply_model(&mut m, op, &shadow)?;
        apply(&shadow, op);
    }
    Ok(m)
}

fn leg(t: &Track, ops: &[usize], step: usize, path: &Path) -> Result<(), String> {
    let bat = battery(&t.uni, if t.name == "values" { Depth::Core } else { Depth::Full });
    let db = match (t.store, step) {
        (Store::MemFile, 0) => Any::Mem(MemoryDatastore::create_msgpack_db(path)),
        (Store::MemFile, _) => Any::Mem(MemoryDatastore::read_msgpack_db(path).map_err(|e| format!("reading the image failed: {e}"))?),
        _ => Any::Rocks(open_rocks(path)?),
    };
    let run = |op: &Op| match &db {
        Any::Mem(d) => apply(d, op),
        Any::Rocks(d) => apply(d, op),
    };
    let model = |m: &mut Model, op: &Op| match &db {
        Any::Mem(d) => apply_model(m, op, d),
        Any::Rocks(d) => apply_model(m, op, d),
    };
    let state = |m: &Model| match &db {
        Any::Mem(d) => check_state(d, m, &bat),
        Any::Rocks(d) => check_state(d, m, &bat),
    };
    let mut m = Model::default();
    let mut todo: Vec<&Op> = vec![];
    if step == 0 {
        todo.extend(&t.start);
    } else {
        m = model_of(t, &ops[..step.min(ops.len())])?;
        state(&m).map_err(|e| format!("as found by the next process: {e}"))?;
    }
    if step < ops.len() {
        todo.push(&t.then[ops[step]]);
    }
    for op in todo {
        // The model asks the store before the operation is done
        let want = model(&mut m, op)?;
        let got = run(op);
        if got != want {
            return Err(format!("{} answered {}, expected {}", optext(op), ans_text(&got), ans_text(&want)));
        }
    }
    state(&m)?;
    if t.store == Store::MemFile || (step + ops.len()) % 2 == 0 {
        if run(&Op::Sync) != Ans::Ok {
            return Err("the sync failed".into());
        }
    }
    Ok(())
}

/// `relay TRACK OPS STEP PATH`
pub fn child(args: &[String]) -> ! {
    let t = &tracks()[args[0].parse::<usize>().unwrap()];
    let ops: Vec<usize> = args[1].split('.').map(|k| k.parse().unwrap()).collect();
    let r = catch(|| leg(t, &ops, args[2].parse().unwrap(), Path::new(&args[3])));
    match r {
        Ok(Ok(())) => std::process::exit(0),
        Ok(Err(e)) => println!("{e}"),
        Err(p) => println!("panicked: {p}"),
    }
    std::process::exit(1);
}

pub fn parts(cfg: &Cfg, rocks: bool) -> Vec<Box<dyn Part>> {
    let mut p: Vec<Box<dyn Part>> = vec![];
    for (ti, t) in tracks().into_iter().enumerate() {
        if (t.store == Store::Rocks) != rocks {
            continue;
        }
        let n = t.then.len();
        // Three operations by three processes in the thorough check.
        let depth = if t.name == "values" && !cfg.thorough { 1 } else if cfg.thorough && t.name == "new" { 3 } else { 2 };
        let mut seqs: Vec<Vec<usize>> = vec![];
        let mut last: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..depth {
            last = last.iter().flat_map(|s| (0..n).map(move |k| { let mut s = s.clone(); s.push(k); s })).collect();
            seqs.extend(last.clone());
        }
        let texts: Vec<String> = seqs
            .iter()
            .map(|s| s.iter().map(|k| optext(&t.then[*k])).collect::<Vec<_>>().join(" | "))
            .collect();
        let name = format!("relay:{}:{:?}", t.name, t.store);
        let shown = texts.clone();
        p.push(cases(&name, seqs.len() as u64, move |i, env| {
            let dir = env.fresh_path();
            std::fs::create_dir_all(dir.join("elsewhere")).unwrap();
            let path: PathBuf = dir.join("store");
            let ops = seqs[i as usize].iter().map(|k| k.to_string()).collect::<Vec<_>>().join(".");
            let exe = std::env::current_exe().unwrap();
            let mut r = Ok(());
            for step in 0..=seqs[i as usize].len() {
                let mut c = Command::new(&exe);
                c.args(["relay", &ti.to_string(), &ops, &step.to_string()]);
                // Another directory, another user's surroundings
                if step % 2 == 1 {
                    c.current_dir(dir.join("elsewhere")).arg("../store").env("HOME", dir.join("elsewhere")).env("TZ", "Asia/Kolkata").env("LANG", "tr_TR");
                } else {
                    c.arg(&path);
                }
                let o = c.output().unwrap();
                env.count("processes", 1);
                if !o.status.success() {
                    let said = format!("{}{}", String::from_utf8_lossy(&o.stdout).trim(), if o.status.code().is_none() { " (killed)" } else { "" });
                    r = Err(format!("process {} of {}: {}", step + 1, seqs[i as usize].len() + 1, said));
                    break;
                }
            }
            let _ = std::fs::remove_dir_all(&dir);
            r.map_err(|e| Fail::new(&format!("relay {ti} {ops}"), format!("{}: {e}", texts[i as usize])))
        }, move |i| shown[i as usize].clone()));
    }
    p
}
