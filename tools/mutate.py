#!/usr/bin/env python3
"""Mutation testing of the checks. mutate.py gen OUT: writes mutants of /repo's sources that compile and pass the tests
(worked out in a scratch copy, $MUTWT or /tmp/seedwt) to OUT/NNNN.diff. mutate.py list: counts the candidates only.
mutate.py try OUT: (in a box, see inbox.sh) runs the checks that concern each file on each, until one reports a violation;
writes OUT/NNNN.result. mutants of K/N only: MUTPART=K/N."""
import sys, os, re, subprocess, json, glob
W = os.environ.get("MUTWT", "/tmp/seedwt")
FILES = {
    "lib/src/database.rs": "C01 C05 C07 C09 C30 C29 C08 C06 C04 C11 C24",
    "lib/src/memory/datastore.rs": "C01 C29 C04 C02 C03 C09 C14 C15 C07 C19 C08 C06 C05",
    "lib/src/rdb/datastore.rs": "C01 C29 C04 C02 C03 C09 C16 C18 C17 C20 C08 C07 C06 C05",
    "lib/src/rdb/managers.rs": "C01 C29 C04 C02 C03 C09 C16 C08 C07 C17 C20 C06 C05 C12 C11",
    "lib/src/util.rs": "C12 C01 C27 C06 C11 C05 C10",
    "lib/src/models/json.rs": "C10 C11 C04",
    "lib/src/models/identifiers.rs": "C13 C11 C26 C12 C01",
    "lib/src/models/edges.rs": "C01 C03 C29 C12",
    "lib/src/models/vertices.rs": "C01 C27 C05",
    "lib/src/models/queries.rs": "C05 C06 C07 C01",
    "lib/src/models/properties.rs": "C05 C01 C25",
    "lib/src/errors.rs": "C08 C13 C05",
    "proto/src/server.rs": "C21 C22 C23 C24 C26",
    "proto/src/client.rs": "C21 C24 C23 C22 C28",
    "proto/src/converters.rs": "C22 C21",
    "plugins/host/src/util.rs": "C25",
    "plugins/host/src/decl.rs": "C26",
    "server/src/main.rs": "C28 C26",
    "server/src/cli.rs": "C28",
    "client/src/main.rs": "C28",
    "client/src/cli.rs": "C28",
}
SWAPS = [(r" == ", " != "), (r" != ", " == "), (r" >= ", " > "), (r" > ", " >= "), (r" < ", " <= "), (r" <= ", " < "),
         (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-z(])", ""),
         (r"\boutbound_id\b", "inbound_id"), (r"\binbound_id\b", "outbound_id"), (r"\.reversed\(\)", ""), (r"\.reversed\(\)", ".clone()"),
         (r"\breversed_edges\b", "edges"), (r"internal\.edges\b", "internal.reversed_edges"),
         (r"new_reversed\(", "new("), (r"EdgeRangeManager::new\(", "EdgeRangeManager::new_reversed("),
         (r"\.take\(", ".skip("), (r"\bOutbound\b", "Inbound"), (r"\bInbound\b", "Outbound"), (r"\boutbound\b", "inbound"),
         (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\bis_empty\(\)", "is_empty() ^ true"),
         (r"\brange_edges\b", "range_reversed_edges"), (r"\brange_reversed_edges\b", "range_edges"),
         (r"\.range\((.*)\.\.\)", r".range((std::ops::Bound::Excluded(\1), std::ops::Bound::Unbounded))"),
         (r"range_vertices\(", "all_vertices(/*"), (r"take_while", "filter"), (r"\.filter\(", ".take_while("),
         (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\bbreak;", ""), (r"vertex_properties\b", "edge_properties"),
         (r"Ok\(true\)", "Ok(false)"), (r"Ok\(false\)", "Ok(true)"), (r"Some\(Err\(err\)\)", "None"), (r"Err\(_\) => true", "Err(_) => false"),
         (r"\bSome\(([^()]+)\)(?= *[,;)}])", "None"), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r" \+ ", " - "), (r" - ", " + "),
         (r"\.unwrap_or_default\(\)", ".unwrap()"), (r"Ordering::Less", "Ordering::Greater"), (r"Ordering::Greater", "Ordering::Less"),
         (r"\.rev\(\)", ""), (r"\.sync_all\(\)\?", ".metadata()?"), (r"or_insert_with\(HashSet::new\)", "or_insert_with(HashSet::new)"),
         (r"\.starts_with\(", ".ends_with("), (r"Direction::Forward", "Direction::Reverse"), (r"IteratorMode::Start", "IteratorMode::End"),
         (r"if let Query::Include\(_\) = \*q\.inner", "if let Query::Include(_) = *q.inner.clone()"),
         (r"=> Some\(", "=> None.or(Some("), (r"exists", "contains"), (r"\bq\.limit\b", "(q.limit.saturating_sub(1))"), (r"\bq\.limit\b", "(q.limit.min(4096))"),
         (r"\bCount\b", "Count"), (r"u32::MAX", "65536"), (r"usize::MAX", "4194304"), (r"\.push\(", ".insert(0, "), (r"\.pop\(\)", ".first().cloned()"),
         (r"\.entry\(([^()]*(?:\([^()]*\))?)\)\.or_insert", r".entry(\1).or_insert")]


def candidates():
    out = []
    for f in FILES:
        p = os.path.join("/repo" if sys.argv[1] == "list" else W, f)
        if not os.path.exists(p):
            continue
        lines = open(p).read().split("\n")
        for n, l in enumerate(lines):
            if "#[cfg(test)]" in l:
                break
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "debug_assert", "fn ", "pub fn", "impl", "unsafe impl", "type ")):
                continue
            new = set()
            for a, b in SWAPS:
                for m in re.finditer(a, l):
                    new.add(l[:m.start()] + m.expand(b) + l[m.end():])
            for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", l):
                k = int(m.group(1))
                for j in (k + 1, k - 1):
                    if j >= 0:
                        new.add(l[:m.start()] + str(j) + l[m.end():])
            m = re.match(r"(\s*)((?:\} else )?)if (?!let )(.*) \{$", l)
            if m:
                new.add("%s%sif true || (%s) {" % m.groups())
                new.add("%s%sif false && (%s) {" % m.groups())
            if s.endswith(";") and s.count("(") == s.count(")") and s.count("{") == s.count("}") and not re.match(r"(let|return|break|continue|type|const|static|\}|\)|\.|extern|\?)", s) and "(" in s:
                new.add(re.match(r"\s*", l).group() + "();")
                if s.endswith(")?;"):
                    new.add(re.match(r"\s*", l).group() + "let _ = " + s[:-2] + ";")
            for x in sorted(new):
                if x != l:
                    out.append((f, n, l, x))
    return out


def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def gen(out):
    os.makedirs(out, exist_ok=True)
    os.makedirs(W + "/vp", exist_ok=True)
    env = open("/opt/vp/env.sh").read().replace("/repo", W)
    open(out + "/env-%s.sh" % os.path.basename(W), "w").write(env)
    E = ". %s/env-%s.sh; " % (out, os.path.basename(W))
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
    k, n = map(int, os.environ.get("MUTPART", "0/1").split("/"))
    stat = {}
    for num, (f, ln, old, new) in enumerate(candidates()):
        if num % n != k or os.path.exists(out + "/%04d.done" % num):
            continue
        sh("git checkout -q -- .")
        p = os.path.join(W, f)
        lines = open(p).read().split("\n")
        assert lines[ln] == old
        lines[ln] = new
        open(p, "w").write("\n".join(lines))
        pkg = {"lib": "-p indradb-lib"}.get(f.split("/")[0], "--workspace")
        r = sh(E + "timeout 120 cargo build \"${ARGS[@]}\"")
        what = None
        if r.returncode:
            what = "compile"
        else:
            r = sh(E + "timeout 60 cargo test --locked --offline --features indradb-lib/test-suite,indradb-lib/rocksdb-datastore,indradb-proto/test-suite %s" % ("-p indradb-lib -p indradb-proto" if f.startswith("lib/") else "--workspace"))
            if r.returncode:
                what = "tests"
            elif f.startswith("lib/"):
                r = sh(E + "timeout 120 cargo test \"${ARGS[@]}\"")
                what = "tests" if r.returncode else None
        if not what:
            open(out + "/%04d.diff" % num, "w").write(sh("git diff").stdout)
            open(out + "/%04d.json" % num, "w").write(json.dumps(dict(file=f, line=ln + 1, old=old.strip(), new=new.strip())))
            what = "survives"
        stat[what] = stat.get(what, 0) + 1
        open(out + "/%04d.done" % num, "w").write(what)
        print(num, f, ln + 1, what, new.strip() if what == "survives" else "", flush=True)
    sh("git checkout -q -- .")
    print(stat)


def trial(out):
    for d in sorted(glob.glob(out + "/*.diff")):
        res = d[:-5] + ".result"
        if os.path.exists(res):
            continue
        j = json.load(open(d[:-5] + ".json"))
        k, n = map(int, os.environ.get("MUTPART", "0/1").split("/"))
        if int(os.path.basename(d)[:-5]) % n != k:
            continue
        if subprocess.call(["git", "-C", "/repo", "apply", d]):
            continue
        got, odd = "MISSED", []
        for c in FILES[j["file"]].split():
            r = subprocess.run(["timeout", "900", "python3", "check.py", c], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                got = c
                break
            if r.returncode:
                odd.append("%s exit %d" % (c, r.returncode))
        subprocess.call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        t = "%s %s %s:%d %s  ==>  %s %s" % (os.path.basename(d), got, j["file"], j["line"], j["old"], j["new"], odd or "")
        open(res, "w").write(t + "\n")
        print(t, flush=True)


if sys.argv[1] == "list":
    c = candidates()
    print(len(c))
    for f in FILES:
        print(f, sum(1 for x in c if x[0] == f))
elif sys.argv[1] == "gen":
    gen(sys.argv[2])
else:
    trial(sys.argv[2])
