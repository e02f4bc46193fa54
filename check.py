#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working
tree, explores, compares with the known findings, writes the evidence.

  check.py ID [--tier quick|thorough]
  check.py --setup
  check.py --replay FILE
"""
import json, os, shutil, subprocess, sys, tempfile, time, traceback
import buildlib
from checks import CHECKS

V = os.path.dirname(os.path.abspath(__file__))
EVID = os.path.join(V, "evidence")
KNOWN = os.path.join(V, "known-findings.txt")


# Where the explorers find what was built.
PLACES = {
    "MC_VERIF": V,
    "MC_TARGET": buildlib.TARGET,
    "MC_PLUGINS": os.path.join(buildlib.TARGET, "release"),
    "MC_SAMPLES": os.path.join(buildlib.REPO_TARGET, "release"),
    "MC_PROGRAMS": os.path.join(buildlib.REPO_TARGET, "release"),
}


def known_findings(pid):
    """Lines `known: property=ID key=<exact key of the failing case> :: what`."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if line.startswith("known: property=%s key=" % pid):
                key, _, what = line[len("known: property=%s key=" % pid):].partition(" :: ")
                out[key] = what
    return out


def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="mc-", dir=base)


def run_binary(binary, pid, tier, seed, workers, out, dirname, extra, env=None):
    cmd = [binary, "run", pid, "--tier", tier, "--seed", str(seed), "--workers", str(workers), "--out", out, "--dir", dirname] + extra
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.Popen(cmd, stdin=subprocess.DEVNULL, env=e)


def main():
    if sys.argv[1] == "--setup":
        buildlib.setup()
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    ev_path = os.path.join(EVID, pid + ".json")
    bins = buildlib.build(spec["package"], spec["profiles"], spec.get("needs", []))
    t_build = time.time() - t0
    scratch = scratch_dir()
    try:
        procs = []
        extra = list(spec.get("extra", []))
        runs = [(p, bins[p], spec.get("env", {}).get(p, {})) for p in spec["profiles"]]
        if spec.get("serial"):
            groups = [[r] for r in runs]
        else:
            groups = [runs]
        for k, g in enumerate(groups):
            ps = []
            if tier != "thorough":
                # Never without an answer, on however slow a machine.
                budget = ["--budget", str(int(max(30, (760 - (time.time() - t0)) / (len(groups) - k))))]
            else:
                budget = ["--budget", str(spec["budget"])] if "budget" in spec else []
            for name, b, env in g:
                d = os.path.join(scratch, name)
                os.makedirs(d)
                env = dict(env, **PLACES)
                out = os.path.join(scratch, name + ".out.json")
                ps.append((name, out, run_binary(b, pid, tier, seed, spec.get("workers", 8), out, d, extra + budget, env)))
            for name, out, p in ps:
                rc = p.wait()
                if rc != 0 or not os.path.exists(out):
                    raise RuntimeError("the explorer (%s) ended with %s" % (name, rc))
                procs.append((name, json.load(open(out))))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(pid, spec, tier, seed, procs, t0, t_build, ev_path)


def report(pid, spec, tier, seed, procs, t0, t_build, ev_path):
    known = known_findings(pid)
    fails, seen_known, errors = [], {}, []
    counters, parts, samples = {}, [], []
    states = 0
    cut = False
    for name, r in procs:
        for f in r["fails"]:
            f["profile"] = name
            if f["key"] in known:
                seen_known[f["key"]] = known[f["key"]]
            else:
                fails.append(f)
        errors += ["%s: %s" % (name, e) for e in r["errors"]]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for p in r["parts"]:
            parts.append(dict(p, build=name))
        samples += r["samples"]
        states = max(states, r["distinct_states"])
        cut = cut or r["cut"]
    for k, w in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    done = sum(p["cases"] for p in parts)
    total = sum(p["of"] for p in parts)
    replays = []
    if fails:
        rd = os.path.join(EVID, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, f in enumerate(fails[:5]):
            path = os.path.join(rd, "%s-%d.json" % (pid, n))
            json.dump({"property": pid, "tier": tier, "seed": seed, "profile": f["profile"], "part": f["part"],
                       "part_name": f["part_name"], "case": f["case"], "session": f["session"], "key": f["key"],
                       "what": f["what"], "how": "python3 /verif/check.py --replay " + path}, open(path, "w"), indent=1)
            replays.append(path)
    cov = {"evaluations": done}
    if spec["level"] == "model_checking":
        cov = {
            "states": counters.get("model states", states) or states,
            "transitions": counters.get("transitions", 0) or counters.get("operations replayed on the implementation", 0) or done,
            "traces_validated_against_impl": counters.get("sequences replayed", 0) or done,
        }
    else:
        cov["distinct_nontrivial"] = states if states else done
        cov["rule"] = spec["rule"]
    if os.environ.get("MC_PLAIN"):
        cov["note"] = "the controlled form of the library did not compile; only whole operations were interleaved"
    cov["cases_explored"] = done
    cov["cases_in_the_space"] = total
    cov["exhaustive"] = done == total and not cut
    cov["counts"] = counters
    cov["parts"] = parts[:120]
    step = max(1, len(samples) // 25)
    cov["samples"] = samples[::step][:30]
    cov["build_seconds"] = round(t_build, 1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    text = json.dumps(ev, indent=1)
    if len(text) > 60000:
        cov["parts"] = [{"parts": len(parts), "cases": done}]
        cov["samples"] = cov["samples"][:10]
        text = json.dumps(ev, indent=1)
    with open(ev_path + ".tmp", "w") as f:
        f.write(text)
    os.rename(ev_path + ".tmp", ev_path)
    print("%s %s: %d of %d cases, %d distinct states, %.1f s (build %.1f s)" % (pid, tier, done, total, states, time.time() - t0, t_build))
    if fails:
        for f, r in zip(fails, replays):
            print("  [%s] %s" % (f["profile"], f["what"][:3000]))
        if len(fails) > len(replays):
            print("  ... and %d more" % (len(fails) - len(replays)))
        print("VIOLATION property=%s replay=%s" % (pid, replays[0]))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    if done == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    spec = CHECKS[r["property"]]
    bins = buildlib.build(spec["package"], [r["profile"]], spec.get("needs", []))
    d = scratch_dir()
    env = dict(os.environ, **PLACES, **spec.get("env", {}).get(r["profile"], {}))
    cases = r["session"] or [r["case"]]
    rc = subprocess.run([bins[r["profile"]], "replay", r["property"], "--tier", r["tier"], "--seed", str(r["seed"]),
                         "--part", str(r["part"]), "--cases", ",".join(map(str, cases)), "--dir", d], env=env).returncode
    shutil.rmtree(d, ignore_errors=True)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except buildlib.BuildError as e:
        print("ERROR: the harness does not build:\n%s" % e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
