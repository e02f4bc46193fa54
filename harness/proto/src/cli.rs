//! C28: the programs, `indradb-server` and `indradb-client`, as processes.
use crate::net::*;
use crate::plug::place;
use indradb::{Query, QueryOutputValue};
use indradb_proto::{Client, ClientError};
use mc_core::explore::*;
use mc_core::model::*;
use mc_core::observe::{self, ans_text};
use mc_core::ops::*;
use mc_core::run::{Cfg, Env, Fail, Part};
use mc_core::short::*;
use mc_core::universe::*;
use serde_json::json;
use std::ffi::{OsStr, OsString};
use std::future::Future;
use std::io::{BufRead, BufReader, Read};
use std::net::SocketAddr;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use uuid::Uuid;

type Parts = Vec<Box<dyn Part>>;

// ---- processes ---------------------------------------------------------------

fn program(name: &str) -> Command {
    let built = PathBuf::from(std::env::var("MC_PROGRAMS").expect("MC_PROGRAMS"));
    // Under a name of its own: the repository's tests end every process called `indradb-server`
    // on the machine.
    let link = built.join(format!("mc-{}", name.trim_start_matches("indradb-")));
    if !link.exists() {
        let _ = std::os::unix::fs::symlink(name, &link);
    }
    let mut c = Command::new(if link.exists() { link } else { built.join(name) });
    c.arg0(name);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    // It shall not outlive this process, and be interruptible even if this process (started in the
    // background by some shell) is not.
    unsafe {
        c.pre_exec(|| {
            for s in [libc::SIGINT, libc::SIGQUIT, libc::SIGTERM, libc::SIGHUP] {
                libc::signal(s, libc::SIG_DFL);
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

fn reap(child: &mut Child, what: &str) -> Result<Option<i32>, String> {
    let t = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return Ok(s.code()),
            Ok(None) if t.elapsed() > PATIENCE => {
                let _ = child.kill();
                let _ = child.wait();
                return Err(format!("{what} did not end within 20 s"));
            }
            Ok(None) => std::thread::sleep(Duration::from_micros(300)),
            Err(e) => return Err(e.to_string()),
        }
    }
}

/// How a program ended.
#[derive(Debug)]
pub struct Ended {
    code: Option<i32>,
    out: String,
    err: String,
}

fn ran(mut c: Command, what: &str) -> Result<Ended, String> {
    let mut child = c.spawn().map_err(|e| format!("{what}: {e}"))?;
    let code = reap(&mut child, what)?;
    let (mut out, mut err) = (vec![], vec![]);
    let _ = child.stdout.take().unwrap().read_to_end(&mut out);
    let _ = child.stderr.take().unwrap().read_to_end(&mut err);
    Ok(Ended { code, out: String::from_utf8_lossy(&out).to_string(), err: String::from_utf8_lossy(&err).chars().take(300).collect() })
}

fn client(addr: &OsStr, args: &[OsString]) -> Result<Ended, String> {
    let mut c = program("indradb-client");
    c.arg(addr).args(args);
    ran(c, &format!("the client, given {args:?},"))
}

/// A server process that serves.
pub struct Server {
    child: Child,
    pub addr: SocketAddr,
    pub line: String,
    client: Client,
}

impl Server {
    /// `Ok(Err(_))`: it ended instead.
    fn start(args: &[OsString]) -> Result<Result<Server, Ended>, String> {
        Server::start_as(program("indradb-server"), args)
    }
    fn start_as(mut c: Command, args: &[OsString]) -> Result<Result<Server, Ended>, String> {
        let mut child = c.args(args).spawn().map_err(|e| format!("the server: {e}"))?;
        let out = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            let mut line = String::new();
            while r.read_line(&mut line).is_ok_and(|n| n > 0) {
                if tx.send(std::mem::take(&mut line)).is_err() {
                    break;
                }
            }
        });
        let mut said = String::new();
        let at = match rx.recv_timeout(PATIENCE) {
            Ok(line) => {
                said.push_str(&line);
                line.trim_end().strip_prefix("grpc://").and_then(|a| a.parse::<SocketAddr>().ok())
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let _ = child.kill();
                let _ = child.wait();
                return Err("the server neither ended nor said its address within 20 s".into());
            }
            Err(_) => None,
        };
        let mut kept = None;
        if let Some(a) = at {
            // It says the address before it has looked at the plugins.
            let t = Instant::now();
            kept = loop {
                if child.try_wait().map_err(|e| e.to_string())?.is_some() {
                    break None;
                }
                let c = wait(async {
                    let mut c = connect(a).await.ok()?;
                    c.ping().await.ok()?;
                    Some(c)
                });
                match c {
                    Ok(Some(c)) => break Some(c),
                    _ if t.elapsed() > PATIENCE => {
                        let _ = child.kill();
                        let _ = child.wait();
                        return Err(format!("the server said {:?} but does not answer there", said));
                    }
                    _ => std::thread::sleep(Duration::from_millis(1)),
                }
            };
        }
        if let (Some(addr), Some(client)) = (at, kept) {
            return Ok(Ok(Server { child, addr, line: said, client }));
        }
        let code = reap(&mut child, "the server")?;
        while let Ok(l) = rx.recv() {
            said.push_str(&l);
        }
        let mut err = vec![];
        let _ = child.stderr.take().unwrap().read_to_end(&mut err);
        Ok(Err(Ended { code, out: said, err: String::from_utf8_lossy(&err).chars().take(300).collect() }))
    }
    fn serving(args: &[OsString]) -> Result<Server, String> {
        Server::start(args)?.map_err(|e| format!("the server refuses {args:?}: {e:?}"))
    }
    /// How many more files it can open.
    pub fn files_left(&self) -> Result<usize, String> {
        let has = std::fs::read_dir(format!("/proc/{}/fd", self.child.id())).map_err(|e| e.to_string())?.count();
        let mut l: libc::rlimit = unsafe { std::mem::zeroed() };
        unsafe { libc::prlimit(self.child.id() as i32, libc::RLIMIT_NOFILE, std::ptr::null(), &mut l) };
        Ok((l.rlim_cur as usize).saturating_sub(has))
    }
    pub fn alive(&mut self) -> Result<(), String> {
        match self.child.try_wait() {
            Ok(None) => Ok(()),
            Ok(Some(s)) => Err(format!("the server ended: {s}")),
            Err(e) => Err(e.to_string()),
        }
    }
    fn end(&mut self, signal: i32) -> Result<(), String> {
        unsafe { libc::kill(self.child.id() as i32, signal) };
        reap(&mut self.child, "the server").map(|_| ())
    }
    fn url(&self) -> OsString {
        format!("grpc://{}", self.addr).into()
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Calls for Server {
    fn call<T, F: Future<Output = Result<T, ClientError>>>(&self, f: impl FnOnce(Client) -> F) -> Result<T, String> {
        call_with(self.client.clone(), f)
    }
}
impl Handle for Server {
    fn run(&self, op: &Op) -> Ans {
        run_by(self, op)
    }
    fn ask(&self, q: Query) -> Result<Vec<QueryOutputValue>, String> {
        ask_by(self, q)
    }
}

/// A server that can have so many files open at most.
pub fn limited(files: u64) -> Result<Server, String> {
    let mut c = program("indradb-server");
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: files, rlim_max: files };
            if libc::setrlimit(libc::RLIMIT_NOFILE, &l) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    Server::start_as(c, &os(&["-a", "127.0.0.1:0", "memory"]))?.map_err(|e| format!("the server, allowed {files} files, ends: {e:?}"))
}

fn os(args: &[&str]) -> Vec<OsString> {
    args.iter().map(OsString::from).collect()
}

// ---- operations as command lines ---------------------------------------------

fn edge_args(e: &indradb::Edge) -> Vec<String> {
    vec![e.outbound_id.to_string(), e.t.to_string(), e.inbound_id.to_string()]
}
enum On {
    V(Uuid),
    E(indradb::Edge),
}
impl On {
    fn of(q: &Query) -> Option<On> {
        match q {
            Query::SpecificVertex(q) if q.ids.len() == 1 => Some(On::V(q.ids[0])),
            Query::SpecificEdge(q) if q.edges.len() == 1 => Some(On::E(q.edges[0].clone())),
            _ => None,
        }
    }
    fn noun(&self, props: bool) -> Vec<String> {
        vec![format!("{}{}", if matches!(self, On::V(_)) { "vertex" } else { "edge" }, if props { "-property" } else { "" })]
    }
    fn args(&self) -> Vec<String> {
        match self {
            On::V(i) => vec![i.to_string()],
            On::E(e) => edge_args(e),
        }
    }
}

/// The command line for an operation, if there is one: options, then
/// positional arguments.
fn command(op: &Op) -> Option<Vec<OsString>> {
    let (verb, noun, options, positional): (&str, Vec<String>, Vec<String>, Vec<String>) = match op {
        Op::CreateVertex(i, t) => ("set", vec!["vertex".into()], vec!["--id".into(), i.to_string()], vec![t.clone()]),
        Op::CreateEdge(a, t, b) => ("set", vec!["edge".into()], vec![], vec![a.to_string(), t.clone(), b.to_string()]),
        Op::Delete(Query::PipeProperty(p)) => {
            let (on, n) = (On::of(&p.inner)?, p.name?);
            ("delete", on.noun(true), vec![], [on.args(), vec![n.to_string()]].concat())
        }
        Op::Delete(q) => {
            let on = On::of(q)?;
            ("delete", on.noun(false), vec![], on.args())
        }
        Op::Set(q, n, v) => {
            let on = On::of(q)?;
            ("set", on.noun(true), vec![], [on.args(), vec![n.clone(), v.0.to_string()]].concat())
        }
        Op::Get(Query::Count(c)) => ("count", vec![match &*c.inner {
            Query::AllVertex => "vertex".into(),
            Query::AllEdge => "edge".into(),
            _ => return None,
        }], vec![], vec![]),
        Op::Get(Query::PipeProperty(p)) => {
            let on = On::of(&p.inner)?;
            ("get", on.noun(true), p.name.iter().flat_map(|n| ["--name".to_string(), n.to_string()]).collect(), on.args())
        }
        Op::Get(q) => {
            let on = On::of(q)?;
            ("get", on.noun(false), vec![], on.args())
        }
        _ => return None,
    };
    let mut v: Vec<String> = vec![verb.into()];
    v.extend(noun);
    v.extend(options);
    if positional.iter().any(|p| p.starts_with('-')) {
        v.push("--".into());
    }
    v.extend(positional);
    Some(v.into_iter().map(OsString::from).collect())
}

/// What the client prints for what a query answered.
fn printed(o: &[QueryOutputValue]) -> Option<String> {
    Some(match o {
        [QueryOutputValue::Vertices(v)] => format!("{:?}\n", Some(v)),
        [QueryOutputValue::Edges(v)] => format!("{:?}\n", Some(v)),
        [QueryOutputValue::VertexProperties(v)] => format!("{:?}\n", Some(v)),
        [QueryOutputValue::EdgeProperties(v)] => format!("{:?}\n", Some(v)),
        [QueryOutputValue::Count(n)] => format!("{n}\n"),
        _ => return None,
    })
}

/// What an ended client process amounts to.
fn verdict(s: &Server, op: &Op, e: Ended) -> Ans {
    let bad = |w: &str| Ans::Err(format!("{w}: {e:?}"));
    let fine = e.code == Some(0);
    if !fine && !e.out.is_empty() {
        return bad("it failed, but printed something");
    }
    if fine && !e.err.is_empty() {
        return bad("it succeeded, but complained");
    }
    match op {
        Op::CreateVertex(..) | Op::CreateEdge(..) if !fine => Ans::Created(false),
        _ if !fine => Ans::Err("~".into()),
        Op::CreateVertex(i, t) if e.out == format!("{:?}\n", vertex(*i, t)) => Ans::Created(true),
        Op::CreateEdge(a, t, b) if e.out == format!("{:?}\n", edge_of(&(*a, t.clone(), *b))) => Ans::Created(true),
        Op::CreateVertex(..) | Op::CreateEdge(..) => bad("it printed something else"),
        Op::Get(q) => match ask_by(s, q.clone()) {
            Ok(o) if printed(&o).is_some_and(|p| p == e.out) => Ans::Out(o.iter().map(|x| observe::mout(x).sorted()).collect()),
            Ok(o) => bad(&format!("the answer is {o:?}")),
            Err(x) => Ans::Err(x),
        },
        _ if e.out.is_empty() => Ans::Ok,
        _ => bad("it printed something"),
    }
}

/// The client program where it can do what is asked, and requests elsewhere.
pub struct Cli(Server);
impl Handle for Cli {
    fn run(&self, op: &Op) -> Ans {
        match command(op) {
            Some(a) => match client(&self.0.url(), &a) {
                Ok(e) => verdict(&self.0, op, e),
                Err(e) => Ans::Err(e),
            },
            None => self.0.run(op),
        }
    }
    fn ask(&self, q: Query) -> Result<Vec<QueryOutputValue>, String> {
        let op = Op::Get(q);
        if command(&op).is_some() {
            if let Ans::Err(e) = self.run(&op) {
                return Err(e);
            }
        }
        match op {
            Op::Get(q) => self.0.ask(q),
            _ => unreachable!(),
        }
    }
}
impl Served for Cli {
    fn beneath(&self) -> &dyn Handle {
        &self.0
    }
}

pub fn serve(store: Store, path: &Path) -> Result<Box<dyn Served>, String> {
    let mut a = os(&["-a", "127.0.0.1:0"]);
    match store {
        Store::NetRocks => a.extend(["rocksdb".into(), path.as_os_str().to_owned()]),
        _ => a.push("memory".into()),
    }
    Ok(Box::new(Cli(Server::serving(&a)?)))
}

// ---- every command, in every state -------------------------------------------

fn scope(store: Store) -> Scope {
    let e = (1, "t", 2);
    let mut ops = vec![
        cv(1, "x"), cv(2, "x"), cv(1, "y"), ce(1, "t", 2), ce(2, "t", 1), ce(1, "t", 1), dv(1), dv(2), de(1, "t", 2),
        sv(1, "p", "1"), sv(1, "q", "-1"), se_(e, "p", "{\"a\":[null,\"\\u00e9 \\\" x\"]}"), dvp(1, Some("p")), dep(e, Some("p")), index("p"),
    ];
    for q in [
        q_v(id(1)), q_e(&key(1, "t", 2)), q_e(&key(2, "t", 1)), q_props(q_v(id(1)), None), q_props(q_v(id(1)), Some("p")), q_props(q_v(id(1)), Some("q")),
        q_props(q_e(&key(1, "t", 2)), None), q_props(q_e(&key(1, "t", 2)), Some("p")), q_props(q_e(&key(1, "t", 2)), Some("q")),
    ] {
        ops.push(Op::Get(q));
    }
    if store == Store::NetRocks {
        ops.push(Op::Reopen);
    }
    let u = Universe::new(&[1, 2], &["x", "y"], &["t"], &["p", "q"], &["1", "-1", "{\"a\":[null,\"\\u00e9 \\\" x\"]}"]);
    Scope::new("commands", store, ops, u)
}

// ---- forms of arguments --------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Id,
    Name,
    Value,
}
use Kind::*;

/// The subcommands: words, and what their positional arguments are; `true`:
/// `--id` (of a vertex) or `--name` may be given.
const FORMS: [(&str, &str, &[Kind], Option<(&str, Kind)>); 14] = [
    ("set", "vertex", &[Name], Some(("id", Id))),
    ("set", "edge", &[Id, Name, Id], None),
    ("set", "vertex-property", &[Id, Name, Value], None),
    ("set", "edge-property", &[Id, Name, Id, Name, Value], None),
    ("count", "vertex", &[], None),
    ("count", "edge", &[], None),
    ("get", "vertex", &[Id], None),
    ("get", "edge", &[Id, Name, Id], None),
    ("get", "vertex-property", &[Id], Some(("name", Name))),
    ("get", "edge-property", &[Id, Name, Id], Some(("name", Name))),
    ("delete", "vertex", &[Id], None),
    ("delete", "edge", &[Id, Name, Id], None),
    ("delete", "vertex-property", &[Id, Name], None),
    ("delete", "edge-property", &[Id, Name, Id, Name], None),
];

/// Texts that are fine, all of them reading the same or other values.
fn fine(k: Kind) -> Vec<String> {
    let u = id(1);
    match k {
        Id => vec![u.to_string(), u.simple().to_string(), u.braced().to_string(), u.urn().to_string(), id(0xabcdef).to_string().to_uppercase(), id(NIL).to_string(), id(MAXID).to_string(), id(9).to_string()],
        Name => vec!["t".into(), "p".into(), "é".into(), "".into(), "_".into(), "--".into(), "-x".into(), "set".into(), "n".repeat(255), "1".into()],
        Value => ["1", "\"s\"", " [1, 2] ", "null", "{\"a\":{\"b\":[]}}", "-1", "-1.5e3", "true", "\"\\u00e9\"", "\"\"", "18446744073709551615", "{\"a\":1,\"a\":2}"].map(String::from).to_vec(),
    }
}
/// Texts that are not.
fn wrong(k: Kind) -> Vec<OsString> {
    let u = id(1).to_string();
    let mut v: Vec<OsString> = match k {
        Id => vec!["".into(), "1".into(), u[1..].into(), format!("{u}0").into(), format!(" {u}").into(), u.replace('0', "g").into(), format!("{{{u}").into()],
        Name => vec!["a b".into(), "a.b".into(), " ".into(), "n".repeat(256).into(), "é".repeat(128).into(), "a\n".into(), "*".into()],
        Value => ["", "{", "nope", "1 2", "01", "'a'", "[1,]", "NaN", "1e999", "\"", "[1"].map(OsString::from).to_vec(),
    };
    if k == Value {
        v.push(format!("{}{}", "[".repeat(200), "]".repeat(200)).into());
    }
    v.push(OsString::from_vec(vec![b'a', 0xff]));
    v
}
fn plain(k: Kind, nth: usize) -> String {
    match (k, nth) {
        (Id, 0) => id(1).to_string(),
        (Id, _) => id(2).to_string(),
        (Name, 0) => "t".into(),
        (Name, _) => "p".into(),
        (Value, _) => "7".into(),
    }
}

/// What a fine command line means.
fn meaning(form: usize, pos: &[String], opt: Option<&str>) -> Op {
    let u = |s: &str| Uuid::parse_str(s).expect("harness: an id");
    let (verb, noun, ..) = FORMS[form];
    let e = || (u(&pos[0]), pos[1].clone(), u(&pos[2]));
    match (verb, noun) {
        ("set", "vertex") => Op::CreateVertex(u(opt.expect("harness: an id")), pos[0].clone()),
        ("set", "edge") => Op::CreateEdge(e().0, e().1, e().2),
        ("set", "vertex-property") => Op::Set(q_v(u(&pos[0])), pos[1].clone(), j(&pos[2])),
        ("set", _) => Op::Set(q_e(&e()), pos[3].clone(), j(&pos[4])),
        ("count", "vertex") => Op::Get(q_count(Query::AllVertex)),
        ("count", _) => Op::Get(q_count(Query::AllEdge)),
        ("get", "vertex") => Op::Get(q_v(u(&pos[0]))),
        ("get", "edge") => Op::Get(q_e(&e())),
        ("get", "vertex-property") => Op::Get(q_props(q_v(u(&pos[0])), opt)),
        ("get", _) => Op::Get(q_props(q_e(&e()), opt)),
        ("delete", "vertex") => Op::Delete(q_v(u(&pos[0]))),
        ("delete", "edge") => Op::Delete(q_e(&e())),
        ("delete", "vertex-property") => Op::Delete(q_props(q_v(u(&pos[0])), Some(&pos[1]))),
        _ => Op::Delete(q_props(q_e(&e()), Some(&pos[3]))),
    }
}

/// A command line, and what it means; `None`: nothing, it must be refused.
#[derive(Clone)]
struct Line {
    args: Vec<OsString>,
    op: Option<Op>,
}

fn lines(pairs: bool) -> Vec<Line> {
    let mut out = vec![];
    for (f, (verb, noun, kinds, opt)) in FORMS.iter().enumerate() {
        let base: Vec<String> = kinds.iter().enumerate().map(|(k, x)| plain(*x, kinds[..k].iter().filter(|y| *y == x).count())).collect();
        let optional = |v: &str| opt.map(|o| vec![format!("--{}", o.0), v.to_string()]).unwrap_or_default();
        let usual = opt.map(|o| if o.1 == Id { id(3).to_string() } else { "p".to_string() });
        let whole = |options: Vec<String>, pos: &[String]| -> Vec<OsString> {
            let mut a = vec![verb.to_string(), noun.to_string()];
            a.extend(options);
            if pos.iter().any(|p| p.starts_with('-')) {
                a.push("--".into());
            }
            a.extend(pos.iter().cloned());
            a.into_iter().map(OsString::from).collect()
        };
        let with = usual.as_deref().map(|u| optional(u)).unwrap_or_default();
        let mean = |p: &[String]| Some(meaning(f, p, usual.as_deref()));
        out.push(Line { args: whole(with.clone(), &base), op: mean(&base) });
        // Positions, one at a time and in pairs.
        for k in 0..kinds.len() {
            for x in fine(kinds[k]) {
                let mut p = base.clone();
                p[k] = x;
                out.push(Line { args: whole(with.clone(), &p), op: mean(&p) });
                for k2 in k + 1..kinds.len() {
                    for y in if pairs { fine(kinds[k2]) } else { vec![] } {
                        let mut p = p.clone();
                        p[k2] = y;
                        out.push(Line { args: whole(with.clone(), &p), op: mean(&p) });
                    }
                }
            }
            for x in wrong(kinds[k]) {
                let mut a = whole(with.clone(), &base);
                let at = a.len() - kinds.len() + k;
                a[at] = x;
                out.push(Line { args: a.clone(), op: None });
                // A wrong one is wrong wherever another fine one stands.
                for k2 in 0..kinds.len() {
                    for y in if pairs && k2 != k { fine(kinds[k2]).into_iter().filter(|y| !y.starts_with('-')).collect() } else { vec![] } {
                        let mut a = a.clone();
                        let at = a.len() - kinds.len() + k2;
                        a[at] = y.into();
                        out.push(Line { args: a, op: None });
                    }
                }
            }
            // One too few.
            let mut a = whole(with.clone(), &base);
            a.remove(a.len() - kinds.len() + k);
            out.push(Line { args: a, op: None });
        }
        // One too many, and an option there is not.
        for extra in ["x", "--nothing", "-z", "--id", "--name"] {
            let mut a = whole(with.clone(), &base);
            a.push(extra.into());
            out.push(Line { args: a, op: None });
        }
        if let Some((name, kind)) = opt {
            for x in fine(*kind) {
                let m = Some(meaning(f, &base, Some(&x)));
                // `--name=` is taken for an option without its value.
                if !x.is_empty() {
                    out.push(Line { args: whole(vec![format!("--{name}={x}")], &base), op: m.clone() });
                }
                if !x.starts_with('-') {
                    out.push(Line { args: whole(optional(&x), &base), op: m.clone() });
                    // After the positional arguments.
                    let mut a = whole(vec![], &base);
                    a.extend(optional(&x).into_iter().map(OsString::from));
                    out.push(Line { args: a, op: m });
                }
            }
            for x in wrong(*kind) {
                let mut a = whole(optional("?"), &base);
                a[3] = x;
                out.push(Line { args: a, op: None });
            }
        }
    }
    for a in [&["set"][..], &["get"], &["delete"], &["count"], &[], &["nothing"], &["set", "nothing"], &["get", "nothing", "x"], &["count", "vertex", "x"], &["ping", "x"], &["set", "vertex-propertyy"], &["SET", "vertex", "x"]] {
        out.push(Line { args: os(a), op: None });
    }
    out
}

fn graph() -> Vec<Op> {
    vec![cv(1, "x"), cv(2, "t"), ce(1, "t", 2), ce(2, "t", 1), sv(1, "p", "1"), sv(1, "t", "2"), se_((1, "t", 2), "p", "3"), sv(2, "p", "4"), sv(1, "", "5"), se_((1, "t", 2), "", "6")]
}

fn everything() -> Universe {
    let mut u = Universe::new(&[1, 2, 3, 9, 0xabcdef, NIL, MAXID], &["x", "t"], &["t"], &["p", "t"], &["1"]);
    u.names.extend(fine(Name));
    u.names.sort();
    u.names.dedup();
    u.etypes = fine(Name);
    u
}

/// All of the content, without naming it.
fn listing() -> Vec<Query> {
    vec![Query::AllVertex, Query::AllEdge, q_props(Query::AllVertex, None), q_props(Query::AllEdge, None), q_count(Query::AllVertex), q_count(Query::AllEdge)]
}

fn arguments(pairs: bool) -> Box<dyn Part> {
    let all = lines(pairs);
    let shown: Vec<String> = all.iter().map(|l| format!("{:?}", l.args)).collect();
    let nm = if pairs { "arguments, two changed" } else { "arguments" };
    let mut at: Option<Server> = None;
    let (mut m0, mut dirty) = (Model::default(), true);
    cases(
        nm,
        all.len() as u64,
        move |i, env: &mut Env| {
            let l = &all[i as usize];
            let text: String = format!("{:?}", l.args).chars().take(200).collect();
            let f = |e: String| Fail::new(&format!("{nm} | {text}"), format!("[{nm}] {text}: {e}"));
            if dirty {
                at = None;
                let s = Server::serving(&os(&["-a", "127.0.0.1:0"])).map_err(f)?;
                m0 = Model::default();
                for o in graph() {
                    let got = s.run(&o);
                    let want = apply_model(&mut m0, &o, &s).map_err(f)?;
                    if got != want {
                        return Err(f(format!("{}: {}", optext(&o), ans_text(&got))));
                    }
                }
                at = Some(s);
                env.count("servers started", 1);
            }
            dirty = true;
            let s = at.as_ref().unwrap();
            let mut m = m0.clone();
            let e = client(&s.url(), &l.args).map_err(f)?;
            env.count("commands run", 1);
            match &l.op {
                Some(op) => {
                    let shown = format!("{e:?}");
                    let got = verdict(s, op, e);
                    let want = match op {
                        Op::Get(q) => observe::expect(&m, q),
                        _ => apply_model(&mut m, op, s).map_err(f)?,
                    };
                    let want = match want {
                        Ans::Out(o) => Ans::Out(o.into_iter().map(|x| x.sorted()).collect()),
                        w => w,
                    };
                    if got != want {
                        return Err(f(format!("{} expected, got {} ({shown})", ans_text(&want), ans_text(&got))));
                    }
                }
                None => {
                    if e.code == Some(0) {
                        return Err(f(format!("it was carried out: {e:?}")));
                    }
                    if !e.out.is_empty() {
                        return Err(f(format!("it failed, but printed something: {e:?}")));
                    }
                }
            }
            let n = observe::check_state(s, &m, &listing()).map_err(|e| f(format!("afterwards, {e}")))?;
            env.count("queries compared", n);
            dirty = m != m0;
            if dirty {
                observe::check_state(s, &m, &observe::battery(&everything(), observe::Depth::Core)).map_err(|e| f(format!("afterwards, {e}")))?;
            }
            Ok(())
        },
        move |i| shown[i as usize].chars().take(200).collect(),
    )
}

/// Addresses of servers, for every command.
fn addresses() -> Box<dyn Part> {
    let nm = "addresses";
    let cmds: Vec<(Vec<OsString>, Option<Op>)> = {
        let mut v: Vec<(Vec<OsString>, Option<Op>)> = [cv(3, "x"), ce(2, "t", 2), sv(1, "p", "9"), dv(1), Op::Get(q_v(id(1))), Op::Get(q_count(Query::AllVertex))].into_iter().map(|o| (command(&o).unwrap(), Some(o))).collect();
        v.push((os(&["ping"]), None));
        v
    };
    // The address given, from that of the server; whether it must be fine.
    let forms: Vec<(&str, bool)> = vec![
        ("grpc://{}", true), ("http://{}", true), ("grpc://{}/", true), ("{}", false), ("grpc://localhost:{port}", false), ("", false), ("nonsense", false), ("grpc://", false),
        ("grpc://127.0.0.1:1", false), ("grpc://127.0.0.1:99999", false), ("ftp//{}", false), ("grpc://127.0.0.1:{port}x", false), ("grpc:// {}", false),
    ];
    let n = forms.len() * cmds.len();
    let shown = forms.clone();
    let per = cmds.len();
    let mut base = Model::default();
    for o in graph() {
        base = model_step(&Track { m: base, synced: None }, &o).m;
    }
    cases(
        nm,
        n as u64,
        move |i, env: &mut Env| {
            let ((form, must), (args, op)) = (forms[i as usize / per], &cmds[i as usize % per]);
            let f = |e: String| Fail::new(&format!("{nm} | {form} {args:?}"), format!("[{nm}] {form} {args:?}: {e}"));
            let s = Server::serving(&os(&["-a", "127.0.0.1:0"])).map_err(f)?;
            for o in graph() {
                s.run(&o);
            }
            let a = form.replace("{}", &s.addr.to_string()).replace("{port}", &s.addr.port().to_string());
            let e = client(OsStr::new(&a), args).map_err(f)?;
            env.count("commands run", 1);
            let mut m = base.clone();
            if e.code == Some(0) {
                if !a.contains(&s.addr.port().to_string()) {
                    return Err(f(format!("it was carried out: {e:?}")));
                }
                match op {
                    None if e.out == "ok\n" => {}
                    None => return Err(f(format!("ping printed {e:?}"))),
                    Some(op) => {
                        let got = verdict(&s, op, e);
                        let want = match op {
                            Op::Get(q) => observe::expect(&m, q),
                            _ => apply_model(&mut m, op, &s).map_err(f)?,
                        };
                        if got != want {
                            return Err(f(format!("{} expected, got {}", ans_text(&want), ans_text(&got))));
                        }
                    }
                }
            } else if must || !e.out.is_empty() {
                return Err(f(format!("it ended with {e:?}")));
            }
            observe::check_state(&s, &m, &listing()).map_err(|e| f(format!("afterwards, {e}")))?;
            Ok(())
        },
        move |i| format!("{} and command {}", shown[i as usize / per].0, i as usize % per),
    )
}

/// Vertices without an id given: what is printed is what was made.
fn unnamed() -> Box<dyn Part> {
    let nm = "vertices without an id";
    cases(
        nm,
        fine(Name).len() as u64,
        move |i, env: &mut Env| {
            let t = &fine(Name)[i as usize];
            let f = |e: String| Fail::new(&format!("{nm} | {t}"), format!("[{nm}] of type {t:?}: {e}"));
            let s = Server::serving(&os(&["-a", "127.0.0.1:0"])).map_err(f)?;
            let mut out: Vec<String> = vec![];
            for k in 0..3 {
                let args = if t.starts_with('-') { os(&["set", "vertex", "--", t]) } else { os(&["set", "vertex", t]) };
                let e = client(&s.url(), &args).map_err(f)?;
                env.count("commands run", 1);
                if e.code != Some(0) {
                    return Err(f(format!("{e:?}")));
                }
                out.push(e.out);
                let all = s.ask(Query::AllVertex).map_err(f)?;
                let [QueryOutputValue::Vertices(vs)] = &all[..] else { return Err(f(format!("{all:?}"))) };
                let mut want: Vec<String> = vs.iter().map(|v| format!("{v:?}\n")).collect();
                want.sort();
                let mut have = out.clone();
                have.sort();
                if want != have || vs.len() != k + 1 || vs.iter().any(|v| v.t.as_str() != t) {
                    return Err(f(format!("printed {have:?}, there are {vs:?}")));
                }
            }
            Ok(())
        },
        |i| format!("type {:?}", fine(Name)[i as usize].chars().take(5).collect::<String>()),
    )
}

// ---- the server's stores -------------------------------------------------------

#[derive(Clone, Debug)]
enum Act {
    Do(Op),
    /// Stopped by the signal, and started again (with the nth options).
    Again(i32, usize),
    Repair(&'static str),
}
use Act::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kept {
    /// Nothing is kept.
    Nothing,
    /// The image at the last sync.
    Image,
    All,
}

/// The ways to ask for a store of that kind.
fn options(kind: Kept, path: &Path, way: usize) -> Vec<OsString> {
    let p = path.as_os_str().to_owned();
    let mut a: Vec<OsString> = match way {
        0 => os(&["-a", "127.0.0.1:0"]),
        1 => os(&["--address", "127.0.0.1:0"]),
        _ => os(&["--address=127.0.0.1:0"]),
    };
    let eq = |n: &str| {
        let mut x = OsString::from(n);
        x.push("=");
        x.push(&p);
        x
    };
    match (kind, way) {
        (Kept::Nothing, 0) => {}
        (Kept::Nothing, _) => a.push("memory".into()),
        (Kept::Image, 0) => a.extend(["memory".into(), "--persist-path".into(), p]),
        (Kept::Image, _) => a.extend(["memory".into(), eq("--persist-path")]),
        (Kept::All, 0) => a.extend(["rocksdb".into(), p]),
        (Kept::All, 1) => a.extend(["rocksdb".into(), "--max-open-files".into(), "16".into(), p]),
        (Kept::All, _) => a.extend(["rocksdb".into(), p, "--max-open-files=1000".into()]),
    }
    a
}

fn acts(kind: Kept) -> Vec<Act> {
    let mut v: Vec<Act> = [cv(1, "x"), cv(2, "x"), ce(1, "t", 2), sv(1, "p", "1"), dv(1), index("p"), Op::Sync].into_iter().map(Do).collect();
    v.extend([Again(libc::SIGTERM, 1), Again(libc::SIGKILL, 0), Again(libc::SIGINT, 2)]);
    if kind == Kept::All {
        v.extend([Repair("--repair"), Repair("-r")]);
    }
    v
}

fn restarts(kind: Kept, depth: u32, odd: bool) -> Box<dyn Part> {
    let menu = acts(kind);
    let pre: Vec<Act> = [cv(1, "x"), cv(2, "x"), ce(1, "t", 2), sv(1, "p", "1"), Op::Sync].into_iter().map(Do).collect();
    let n = menu.len() as u64;
    let name = format!("restarts, {kind:?} kept{}", if odd { ", a path that is no text" } else { "" });
    let nm = name.clone();
    let list = move |menu: &[Act], mut i: u64| -> Vec<Act> {
        let mut v = if i >= n.pow(depth) { pre.clone() } else { vec![] };
        i %= n.pow(depth);
        for _ in 0..depth {
            v.push(menu[(i % n) as usize].clone());
            i /= n;
        }
        v.push(Again(libc::SIGTERM, 0));
        v
    };
    let show = |v: &[Act]| v.iter().map(|a| match a { Do(o) => optext(o), a => format!("{a:?}") }).collect::<Vec<_>>().join("; ");
    let (l2, m2) = (list.clone(), menu.clone());
    cases(
        &name,
        n.pow(depth) * 2,
        move |i, env: &mut Env| {
            let todo = list(&menu, i);
            let f = |e: String| Fail::new(&format!("{nm} | {}", show(&todo)), format!("[{nm}] {}: {e}", show(&todo)));
            let dir = env.fresh_path();
            std::fs::create_dir_all(&dir).unwrap();
            let path = if odd { dir.join(OsString::from_vec(vec![b's', 0xff, b' ', b'x'])) } else { dir.join("store") };
            let u = Universe::new(&[1, 2], &["x"], &["t"], &["p"], &["1"]);
            let bat = observe::battery(&u, observe::Depth::Full);
            let mut s = Server::serving(&options(kind, &path, 0)).map_err(f)?;
            let (mut m, mut synced) = (Model::default(), Model::default());
            for a in &todo {
                match a {
                    Do(op) => {
                        let got = match command(op) {
                            Some(a) => verdict(&s, op, client(&s.url(), &a).map_err(f)?),
                            None => s.run(op),
                        };
                        let want = apply_model(&mut m, op, &s).map_err(f)?;
                        // Without a path there is nothing to sync to.
                        if got != want && !(matches!(op, Op::Sync) && kind == Kept::Nothing) {
                            return Err(f(format!("{} answered {}, expected {}", optext(op), ans_text(&got), ans_text(&want))));
                        }
                        if matches!(op, Op::Sync) {
                            synced = m.clone();
                        }
                        env.count("operations", 1);
                    }
                    Again(sig, way) => {
                        s.end(*sig).map_err(f)?;
                        let before = (kind == Kept::Image).then(|| std::fs::read(&path).ok());
                        s = Server::serving(&options(kind, &path, *way)).map_err(f)?;
                        if before.is_some_and(|b| b != std::fs::read(&path).ok()) {
                            return Err(f("starting changed the image".into()));
                        }
                        env.count("servers started", 1);
                        match kind {
                            Kept::Nothing => m = Model::default(),
                            Kept::Image => m = synced.clone(),
                            Kept::All => {}
                        }
                        observe::check_state(&s, &m, &bat).map_err(|e| f(format!("after {a:?}, {e}")))?;
                    }
                    Repair(flag) => {
                        s.end(libc::SIGTERM).map_err(f)?;
                        let mut c = program("indradb-server");
                        c.args(["-a", "127.0.0.1:0", "rocksdb"]).arg(flag).arg(&path);
                        let e = ran(c, "the repair").map_err(f)?;
                        if e.code != Some(0) || e.out != "repair successful\n" {
                            return Err(f(format!("the repair ended with {e:?}")));
                        }
                        s = Server::serving(&options(kind, &path, 0)).map_err(f)?;
                        env.count("repairs", 1);
                        observe::check_state(&s, &m, &bat).map_err(|e| f(format!("after the repair, {e}")))?;
                    }
                }
            }
            drop(s);
            let _ = std::fs::remove_dir_all(&dir);
            Ok(())
        },
        move |i| show(&l2(&m2, i)),
    )
}

// ---- what the server must refuse, and what it must bear --------------------------

fn tree_of(dir: &Path) -> Vec<(PathBuf, Vec<u8>)> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            v.push((p.clone(), vec![]));
            v.extend(tree_of(&p));
        } else {
            v.push((p.clone(), std::fs::read(&p).unwrap_or_default()));
        }
    }
    v.sort();
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Odd {
    Address(&'static str),
    Occupied,
    Args(&'static [&'static str]),
    /// The image cut to that many bytes.
    Cut(usize),
    Garbage,
    ImageDir,
    RocksFile,
    RocksUnderFile,
    MaxFiles(&'static str),
    Locked,
    RepairLocked,
    BadPlugin(bool),
    GoodPlugin(bool),
    NoPlugin,
    PluginNoMatch,
    Default,
    V6,
    Localhost,
    /// A store whose place is said in this way.
    At(&'static str, bool),
}

fn image_bytes() -> Vec<u8> {
    let dir = std::env::temp_dir().join(format!("mc-image-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).unwrap();
    let db = indradb::MemoryDatastore::create_msgpack_db(dir.join("i"));
    for o in graph() {
        apply(&db, &o);
    }
    apply(&db, &Op::Sync);
    let b = std::fs::read(dir.join("i")).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    b
}

fn odd_starts(cuts: usize) -> Box<dyn Part> {
    let image = image_bytes();
    let mut list = vec![];
    for a in ["", "nonsense", "127.0.0.1", "127.0.0.1:99999", ":0", "127.0.0.1:", "127.0.0.1:0x", "300.0.0.1:0"] {
        list.push(Odd::Address(a));
    }
    list.extend([Odd::Occupied, Odd::Garbage, Odd::ImageDir, Odd::RocksFile, Odd::RocksUnderFile, Odd::Locked, Odd::RepairLocked]);
    for a in [&["nothing"][..], &["rocksdb"], &["memory", "x"], &["memory", "--persist-path"], &["-x"], &["-a"], &["-p"], &["rocksdb", "--max-open-files"], &["memory", "rocksdb"], &["rocksdb", "A", "B"]] {
        list.push(Odd::Args(a));
    }
    for a in ["x", "", "1.5", "99999999999", "0x10", "16 "] {
        list.push(Odd::MaxFiles(a));
    }
    list.extend([Odd::BadPlugin(false), Odd::BadPlugin(true), Odd::GoodPlugin(false), Odd::GoodPlugin(true), Odd::NoPlugin, Odd::PluginNoMatch, Odd::Default, Odd::V6, Odd::Localhost]);
    for at in ["store", "./store", "sub/store", "sub/../store", "sub//store", "./sub/./store", "a b", "*", "~", "$HOME", "%20", "grpc:", "s\u{f6}", "store.msgpack", "-", "--help", "-x", " ", "sub/link/store"] {
        list.extend([Odd::At(at, false), Odd::At(at, true)]);
    }
    let step = if cuts == 0 { 1 } else { (image.len() / cuts).max(1) };
    for k in (0..image.len()).step_by(step) {
        list.push(Odd::Cut(k));
    }
    let nm = "odd starts";
    let shown = list.clone();
    cases(
        nm,
        list.len() as u64,
        move |i, env: &mut Env| {
            let odd = list[i as usize];
            let f = |e: String| Fail::new(&format!("{nm} | {odd:?}"), format!("[{nm}] {odd:?}: {e}"));
            let dir = env.fresh_path();
            std::fs::create_dir_all(&dir).unwrap();
            let env_dir = dir.join("d");
            let dir = if matches!(odd, Odd::At(..)) { env_dir.join("here") } else { dir };
            std::fs::create_dir_all(&dir).unwrap();
            let p = |s: &str| dir.join(s).into_os_string();
            let any = |mut v: Vec<OsString>, rest: Vec<OsString>| {
                v.extend(rest);
                v
            };
            let here = || os(&["-a", "127.0.0.1:0"]);
            let base = |s: &Server| -> Result<Model, String> {
                let mut m = Model::default();
                for o in graph() {
                    let got = s.run(&o);
                    let want = apply_model(&mut m, &o, s)?;
                    if got != want {
                        return Err(format!("{}: {}", optext(&o), ans_text(&got)));
                    }
                }
                Ok(m)
            };
            let bat = observe::battery(&everything(), observe::Depth::Core);
            // It must end, not serve, and leave alone what is in the directory.
            let refused = |args: Vec<OsString>| -> Result<Ended, String> {
                match Server::start(&args)? {
                    Ok(s) => Err(format!("it serves, at {}", s.addr)),
                    Err(e) if e.code == Some(0) => Err(format!("it ended as if all were well: {e:?}")),
                    Err(e) => Ok(e),
                }
            };
            let kept = |args: Vec<OsString>| -> Result<(), String> {
                let before = tree_of(&dir);
                refused(args)?;
                if tree_of(&dir) != before {
                    return Err("it refused, but changed what was there".into());
                }
                Ok(())
            };
            let stored = |args: Vec<OsString>, m: &Model| -> Result<(), String> {
                let s = Server::serving(&args)?;
                observe::check_state(&s, m, &bat).map(|_| ())
            };
            let rocks = || any(here(), vec!["rocksdb".into(), p("db")]);
            let r: Result<(), String> = (|| match odd {
                Odd::Address(a) => {
                    for rest in [vec![], os(&["memory"]), vec!["memory".into(), "--persist-path".into(), p("image")]] {
                        kept(any(os(&["-a", a]), rest))?;
                    }
                    Ok(())
                }
                Odd::Occupied => {
                    let s = Server::serving(&here())?;
                    let m = base(&s)?;
                    kept(any(os(&["-a", &s.addr.to_string()]), vec!["memory".into(), "--persist-path".into(), p("image")]))?;
                    refused(any(os(&["-a", &s.addr.to_string()]), vec!["rocksdb".into(), p("db")]))?;
                    observe::check_state(&s, &m, &bat)?;
                    Ok(())
                }
                Odd::At(at, on_rocks) => {
                    let other = env_dir.join("other");
                    for d in [dir.join("sub"), other.clone()] {
                        std::fs::create_dir_all(d).unwrap();
                    }
                    std::os::unix::fs::symlink("..", dir.join("sub/link")).unwrap();
                    let start = |cwd: &Path, at: &OsStr| -> Result<Server, String> {
                        let mut c = program("indradb-server");
                        c.current_dir(cwd);
                        let mut a = here();
                        if on_rocks {
                            a.extend(["rocksdb".into(), "--".into(), at.into()]);
                        } else {
                            let mut x = OsString::from("--persist-path=");
                            x.push(at);
                            a.extend(["memory".into(), x]);
                        }
                        Server::start_as(c, &a)?.map_err(|e| format!("the server refuses {a:?}: {e:?}"))
                    };
                    let s = start(&dir, at.as_ref())?;
                    let m = base(&s)?;
                    s.run(&Op::Sync);
                    drop(s);
                    let whole = dir.join(at).into_os_string();
                    if !dir.join(at).exists() {
                        return Err("the store is not where it was said to be".into());
                    }
                    // Said in the same way again, and in full from elsewhere.
                    for (cwd, at) in [(&dir, OsStr::new(at)), (&other, &whole)] {
                        let s = start(cwd, at)?;
                        observe::check_state(&s, &m, &bat).map_err(|e| format!("started again with {at:?}: {e}"))?;
                        s.run(&Op::Sync);
                        drop(s);
                    }
                    // Elsewhere it is another one.
                    if at != "sub/link/store" {
                        std::fs::create_dir_all(other.join("sub")).unwrap();
                        let s = start(&other, at.as_ref())?;
                        observe::check_state(&s, &Model::default(), &bat).map_err(|e| format!("started elsewhere: {e}"))?;
                    }
                    Ok(())
                }
                Odd::Args(a) => kept(any(here(), os(a))),
                Odd::Cut(k) => {
                    std::fs::write(dir.join("image"), &image[..k]).unwrap();
                    kept(any(here(), vec!["memory".into(), "--persist-path".into(), p("image")]))
                }
                Odd::Garbage => {
                    std::fs::write(dir.join("image"), "not an image").unwrap();
                    kept(any(here(), vec!["memory".into(), "--persist-path".into(), p("image")]))
                }
                Odd::ImageDir => {
                    std::fs::create_dir(dir.join("image")).unwrap();
                    kept(any(here(), vec!["memory".into(), "--persist-path".into(), p("image")]))
                }
                Odd::RocksFile => {
                    std::fs::write(dir.join("db"), "a file").unwrap();
                    kept(rocks())
                }
                Odd::RocksUnderFile => {
                    std::fs::write(dir.join("file"), "a file").unwrap();
                    kept(any(here(), vec!["rocksdb".into(), p("file/db")]))
                }
                Odd::MaxFiles(n) => {
                    let s = Server::serving(&rocks())?;
                    let m = base(&s)?;
                    drop(s);
                    kept(any(here(), vec!["rocksdb".into(), "--max-open-files".into(), n.into(), p("db")]))?;
                    stored(rocks(), &m)
                }
                Odd::Locked | Odd::RepairLocked => {
                    let s = Server::serving(&rocks())?;
                    let m = base(&s)?;
                    refused(if odd == Odd::Locked { rocks() } else { any(rocks(), os(&["--repair"])) })?;
                    observe::check_state(&s, &m, &bat)?;
                    for o in [cv(3, "x"), sv(1, "p", "9")] {
                        s.run(&o);
                    }
                    let mut m = m;
                    for o in [cv(3, "x"), sv(1, "p", "9")] {
                        let _ = apply_model(&mut m, &o, &s)?;
                    }
                    observe::check_state(&s, &m, &bat)?;
                    drop(s);
                    stored(rocks(), &m)
                }
                Odd::BadPlugin(on_rocks) => {
                    std::fs::write(dir.join("bad.so"), "no library").unwrap();
                    place(&dir.join("old.so"), json!({ "names": ["e"], "interface": 9 }));
                    let start = |pat: &str| {
                        let mut a = here();
                        a.extend(["-p".into(), p(pat)]);
                        if on_rocks {
                            a.extend(["rocksdb".into(), p("db")]);
                        } else {
                            a.extend(["memory".into(), "--persist-path".into(), p("image")]);
                        }
                        a
                    };
                    let s = Server::serving(&start("none*.so"))?;
                    let m = base(&s)?;
                    s.run(&Op::Sync);
                    drop(s);
                    for pat in ["*.so", "bad.so", "old.so", "***"] {
                        refused(start(pat)).map_err(|e| format!("{pat}: {e}"))?;
                    }
                    stored(start("none*.so"), &m)
                }
                Odd::GoodPlugin(on_rocks) => {
                    place(&dir.join("good.so"), json!({ "names": ["e", "f"] }));
                    place(&dir.join("other.so"), json!({ "names": ["g"] }));
                    for flag in ["-p", "--plugins"] {
                        let mut a = here();
                        a.extend([flag.into(), p("*.so")]);
                        if on_rocks {
                            a.extend(["rocksdb".into(), p("db")]);
                        }
                        let s = Server::serving(&a)?;
                        for (n, lib) in [("e", "good"), ("f", "good"), ("g", "other")] {
                            let arg = indradb::Json::new(json!([n]));
                            let v = s.call(|mut c| async move { c.execute_plugin(n, arg).await }).map_err(|e| format!("plugin {n}: {e}"))?;
                            if *v.0 != json!({ "lib": lib, "name": n, "arg": [n] }) {
                                return Err(format!("plugin {n} answered {}", v.0));
                            }
                        }
                        if !on_rocks {
                            let m = base(&s)?;
                            observe::check_state(&s, &m, &bat)?;
                        }
                    }
                    Ok(())
                }
                Odd::NoPlugin | Odd::PluginNoMatch => {
                    place(&dir.join("good.so"), json!({ "names": ["e"] }));
                    let mut a = here();
                    if odd == Odd::PluginNoMatch {
                        a.extend(["-p".into(), p("x*.so")]);
                    }
                    let s = Server::serving(&a)?;
                    let m = base(&s)?;
                    let v = s.call(|mut c| async move { c.execute_plugin("e", indradb::Json::new(json!(1))).await });
                    if v.is_ok() {
                        return Err("a plugin answered".into());
                    }
                    observe::check_state(&s, &m, &bat)?;
                    Ok(())
                }
                Odd::Default => {
                    // The documented default address, if nobody else has it.
                    if std::net::TcpListener::bind("127.0.0.1:27615").is_err() {
                        return Ok(());
                    }
                    for args in [vec![], os(&["memory"])] {
                        let s = Server::serving(&args)?;
                        if s.line != "grpc://127.0.0.1:27615\n" {
                            return Err(format!("it said {:?}", s.line));
                        }
                        let m = base(&s)?;
                        observe::check_state(&s, &m, &bat)?;
                    }
                    Ok(())
                }
                Odd::V6 | Odd::Localhost => {
                    use std::net::ToSocketAddrs;
                    let a = if odd == Odd::V6 { "[::1]:0" } else { "localhost:0" };
                    // Only where this machine has such an address.
                    let first = a.to_socket_addrs().ok().and_then(|mut a| a.next());
                    let Some(first) = first.filter(|a| std::net::TcpListener::bind(a).is_ok()) else { return Ok(()) };
                    let s = Server::serving(&os(&["-a", a]))?;
                    if s.addr.ip() != first.ip() || s.addr.port() == 0 {
                        return Err(format!("it serves at {}", s.addr));
                    }
                    let m = base(&s)?;
                    observe::check_state(&s, &m, &bat)?;
                    Ok(())
                }
            })();
            env.count("servers started", 1);
            let _ = std::fs::remove_dir_all(&dir);
            r.map_err(f)
        },
        move |i| format!("{:?}", shown[i as usize]),
    )
}

/// The address asked for is the one served.
fn exact_addresses() -> Box<dyn Part> {
    let nm = "the address asked for";
    cases(
        nm,
        6,
        move |i, env: &mut Env| {
            let f = |e: String| Fail::new(&format!("{nm} | {i}"), format!("[{nm}] {i}: {e}"));
            // A port that was free a moment ago; another is taken when it is not.
            for _ in 0..20 {
                let a = {
                    let l = std::net::TcpListener::bind(if i % 2 == 0 { "127.0.0.1:0" } else { "127.0.0.2:0" }).map_err(|e| f(e.to_string()))?;
                    l.local_addr().unwrap()
                };
                let dir = env.fresh_path();
                let mut args = os(&["-a", &a.to_string()]);
                match i / 2 {
                    0 => {}
                    1 => args.push("memory".into()),
                    _ => args.extend(["rocksdb".into(), dir.clone().into_os_string()]),
                }
                let r = Server::start(&args).map_err(f)?;
                let _ = std::fs::remove_dir_all(&dir);
                match r {
                    Ok(s) if s.line == format!("grpc://{a}\n") => return Ok(()),
                    Ok(s) => return Err(f(format!("asked for {a}, it said {:?}", s.line))),
                    Err(_) => continue,
                }
            }
            Err(f("it never serves the address asked for".into()))
        },
        |i| format!("case {i}"),
    )
}

pub fn c28(cfg: &Cfg) -> Parts {
    let t = cfg.thorough;
    let mut p: Parts = vec![];
    p.push(odd_starts(if t { 0 } else { 40 }));
    p.push(exact_addresses());
    p.push(addresses());
    p.push(unnamed());
    p.push(arguments(false));
    if t {
        p.push(arguments(true));
    }
    for kind in [Kept::Nothing, Kept::Image, Kept::All] {
        let d = match kind {
            Kept::Nothing => 1,
            _ if t => 3,
            _ => 2,
        };
        p.push(restarts(kind, d, false));
        if kind != Kept::Nothing {
            p.push(restarts(kind, if t { 2 } else { 1 }, true));
        }
    }
    for s in [Store::NetMem, Store::NetRocks] {
        p.push(Graph::new(scope(s), if t { 4 } else { 3 }, 1));
        let pre = vec![cv(1, "x"), cv(2, "x"), ce(1, "t", 2), sv(1, "p", "1"), se_((1, "t", 2), "p", "1")];
        p.push(Tree::new(with_prefix(scope(s), "commands on a graph", pre), if t || s == Store::NetMem { 2 } else { 1 }));
    }
    p
}
