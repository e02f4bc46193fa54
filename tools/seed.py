#!/usr/bin/env python3
"""Makes and confirms planted bugs. Usage: seed.py SPECFILE... (python files
defining ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (main.rs),
optionally DEMOSH). A bug is kept in /verif/seeded/ID if it compiles, passes the
tests, and its demo tells the two trees apart. Scratch copy: /tmp/seedwt."""
import sys, os, subprocess, shutil, json
W = os.environ.get("SEEDWT", "/tmp/seedwt")
T = os.path.dirname(os.path.abspath(__file__))


def sh(cmd, cwd=W, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.exists(W):
        subprocess.check_call(["cp", "-a", "/repo", W])
        # The scripts name /repo, so use variants of them.
    head = sh("git rev-parse HEAD", cwd="/repo").stdout.strip()
    if sh("git rev-parse HEAD").stdout.strip() != head:
        sh("git fetch -q /repo HEAD && git checkout -q --detach " + head)
    sh("git checkout -q -- . && git clean -fdq")


BASE = json.load(open("/opt/vp/BASELINE.json"))


def scripts():
    for n in ("env.sh", "build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/repo", W).replace("/opt/vp/env.sh", W + "vp/env.sh")
        # server of another test run on this machine must not be killed or met
        s = s.replace("pkill -x indradb-server", "true")
        os.makedirs("" + W + "vp", exist_ok=True)
        open(W + "vp/" + n, "w").write(s)


def main(g):
    out = "/verif/seeded/" + g["ID"]
    fresh()
    scripts()
    for f, old, new in g["EDITS"]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "%s: edit matches %d times in %s: %s" % (g["ID"], s.count(old), f, old[:60])
        open(p, "w").write(s.replace(old, new))
    patch = subprocess.run("git diff", cwd=W, shell=True, stdout=subprocess.PIPE, text=True).stdout
    tmp = "/tmp/seednew-" + g["ID"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/patch.diff", "w").write(patch)
    shutil.copy(T + "/seedlib/demo.sh", tmp + "/demo.sh")
    if "DEMOSH" in g:
        open(tmp + "/demo.sh", "w").write(g["DEMOSH"])
    else:
        open(tmp + "/main.rs", "w").write(g["DEMO"])
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(tmp + "/meta.json", "w"), indent=1)
    r = sh("bash " + W + "vp/build.sh")
    if r.returncode:
        return g["ID"] + ": does not build\n" + r.stdout[-3000:]
    r = sh("bash " + W + "vp/test.sh " + W + "out.json")
    res = json.load(open(W + "out.json"))
    stable = BASE.get("stable") or BASE.get("passed") or BASE
    missing = [t for t in stable if t not in res["passed"]]
    if missing:
        return g["ID"] + ": tests catch it: " + " ".join(missing[:5])
    r = sh("bash %s/demo.sh" % tmp)
    if r.returncode in (0, 97, 98, 99):
        return g["ID"] + ": the demo gives %d with the patch\n%s" % (r.returncode, r.stdout[-3000:])
    msg = r.stdout.strip().splitlines()[-3:]
    sh("git checkout -q -- .")
    r = sh("bash " + W + "vp/build.sh")
    r = sh("bash %s/demo.sh" % tmp)
    if r.returncode:
        return g["ID"] + ": the demo fails without the patch\n" + r.stdout[-3000:]
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs("/verif/seeded", exist_ok=True)
    shutil.copytree(tmp, out)
    shutil.rmtree(tmp)
    return g["ID"] + ": kept. " + " | ".join(msg)


for s in sys.argv[1:]:
    s, _, only = s.partition(":")
    g = {}
    exec(open(s).read(), g)
    for x in g.get("SPECS", [g]):
        if not only or x["ID"] in only.split(","):
            print(main(x), flush=True)
