"""Builds what the checks run: the RocksDB archive (once) and the harness,
against /repo's current working tree."""
import fcntl, os, re, shutil, subprocess, sys, glob

V = os.path.dirname(os.path.abspath(__file__))
ROCKS = os.path.join(V, "build", "rocksdb")
TARGET = os.path.join(V, "build", "target")
HARNESS = os.path.join(V, "harness")
REPO_TARGET = os.path.join(V, "build", "repo-target")


class BuildError(Exception):
    pass


def run(cmd, cwd, env, log):
    with open(log, "wb") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        tail = open(log, errors="replace").read()[-6000:]
        raise BuildError("%s failed (%d):\n%s" % (" ".join(cmd), r.returncode, tail))


def lock():
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    f = open(os.path.join(V, "build", ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def base_env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def ensure_rocksdb():
    done = os.path.join(ROCKS, "librocksdb.a")
    if os.path.exists(done):
        return
    os.makedirs(ROCKS, exist_ok=True)
    e = base_env()
    t = os.path.join(V, "build", "rocks-target")
    e["CARGO_TARGET_DIR"] = t
    run(["cargo", "build", "--release", "--offline"], os.path.join(V, "rocksbuild"), e, os.path.join(V, "build", "rocksdb.log"))
    for lib in ("libsnappy.a", "librocksdb.a"):
        found = glob.glob(os.path.join(t, "release", "build", "librocksdb-sys-*", "out", lib))
        if not found:
            raise BuildError("no %s was built" % lib)
        shutil.copy(found[0], os.path.join(ROCKS, lib + ".tmp"))
        os.rename(os.path.join(ROCKS, lib + ".tmp"), os.path.join(ROCKS, lib))
    shutil.rmtree(t, ignore_errors=True)


def harness_env():
    e = base_env()
    e["CARGO_TARGET_DIR"] = TARGET
    e["ROCKSDB_LIB_DIR"] = ROCKS
    e["ROCKSDB_STATIC"] = "1"
    e["SNAPPY_LIB_DIR"] = ROCKS
    e["SNAPPY_STATIC"] = "1"
    return e


def put(path, text):
    """Writes only what changed, so that cargo rebuilds only that."""
    data = text if isinstance(text, bytes) else text.encode()
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


STD = re.compile(r"(?<![\w:])(::)?std::")


def mirror(src, dst, change):
    """Copies a source tree, changing the Rust files; removes what is gone."""
    seen = set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x not in ("target", ".git")]
        for f in files:
            s = os.path.join(d, f)
            t = os.path.join(dst, os.path.relpath(s, src))
            data = open(s, "rb").read()
            if f.endswith(".rs") or f == "Cargo.toml":
                data = change(f, data.decode()).encode()
            put(t, data)
            seen.add(t)
    for d, dirs, files in os.walk(dst):
        for f in files:
            t = os.path.join(d, f)
            if t not in seen and f != "Cargo.lock":
                os.unlink(t)


def controlled(name, text):
    """The library with its locks, atomics and threads under the scheduler's
    control: `std::` is read as `mcstd::`."""
    if name == "Cargo.toml":
        return text.replace("[dependencies]\n", "[dependencies]\nmcstd = { path = \"%s/harness/mcstd\" }\n" % V, 1)
    return STD.sub(lambda m: (m.group(1) or "") + "mcstd::", text)


def plain(name, text):
    if name == "Cargo.toml":
        return controlled(name, text)
    return text


def sched_workspace(change=controlled):
    """The workspace of the schedule explorer: the library in its controlled
    form, and the harness crates that depend on it."""
    ws = os.path.join(V, "build", "sched")
    mirror("/repo/lib", os.path.join(ws, "lib"), change)

    def moved(name, text):
        if name == "Cargo.toml":
            text = text.replace("/repo/lib", "../../lib").replace("../mcstd", os.path.join(HARNESS, "mcstd"))
        return text
    mirror(os.path.join(HARNESS, "core"), os.path.join(ws, "ws", "core"), moved)
    mirror(os.path.join(HARNESS, "sched"), os.path.join(ws, "ws", "sched"), moved)
    for f in ("shim.rs", "wrapped.txt"):
        put(os.path.join(ws, "ws", "sched", "src", f), open(os.path.join(HARNESS, "lib", "src", f)).read())
    top = open(os.path.join(HARNESS, "Cargo.toml")).read()
    put(os.path.join(ws, "ws", "Cargo.toml"), re.sub(r"members = .*", 'members = ["core", "sched"]', top))
    lock = os.path.join(ws, "ws", "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(HARNESS, "Cargo.lock"), lock)
    return os.path.join(ws, "ws")


def map_workspace(change=controlled):
    """The plugin host and the thread pool it uses, in their controlled form."""
    ws = os.path.join(V, "build", "map")
    found = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/threadpool-1.*")))
    if not found:
        raise BuildError("no source of threadpool")

    def pool(name, text):
        if name == "Cargo.toml":
            text = text.replace('edition = "2015"', "")
            text = re.sub(r"(?m)^\[package\]$", '[package]\nedition = "2018"', text, count=1)
            return text.replace("[dependencies.num_cpus]", '[dependencies.mcstd]\npath = "%s/mcstd"\n\n[dependencies.num_cpus]' % HARNESS)
        return change(name, text) if name == "lib.rs" else text

    def host(name, text):
        if name == "build.rs":
            return text
        text = change(name, text)
        if name == "Cargo.toml":
            text = re.sub(r'(?m)^threadpool = .*$', 'threadpool = { path = "../threadpool" }', text)
            text = text.replace("../../lib", "/repo/lib")
        return text
    mirror(found[-1], os.path.join(ws, "threadpool"), pool)
    mirror("/repo/plugins/host", os.path.join(ws, "host"), host)

    def moved(name, text):
        if name == "Cargo.toml":
            text = text.replace("/repo/plugins/host", "../../host").replace("../mcstd", HARNESS + "/mcstd").replace("../core", HARNESS + "/core")
        return text
    mirror(os.path.join(HARNESS, "map"), os.path.join(ws, "ws", "map"), moved)
    top = open(os.path.join(HARNESS, "Cargo.toml")).read()
    put(os.path.join(ws, "ws", "Cargo.toml"), re.sub(r"members = .*", 'members = ["map"]', top))
    lock = os.path.join(ws, "ws", "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(HARNESS, "Cargo.lock"), lock)
    return os.path.join(ws, "ws")


def build_plugins():
    """The plugin libraries of the checks, and the repository's samples."""
    run(["cargo", "build", "--offline", "-p", "mc-plugin", "--profile", "release", "--lib", "--examples"], HARNESS, harness_env(),
        os.path.join(V, "build", "build-plugins.log"))
    repo_bins(["indradb-plugin-hello-world", "indradb-plugin-naive-vertex-count"], "samples")


def repo_bins(packages, name):
    """Packages of the repository's own workspace."""
    e = harness_env()
    e["CARGO_TARGET_DIR"] = REPO_TARGET
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", "/repo/Cargo.toml", "--profile", "release"]
    for p in packages:
        cmd += ["-p", p]
    run(cmd, HARNESS, e, os.path.join(V, "build", "build-%s.log" % name))


def build_programs():
    repo_bins(["indradb", "indradb-client"], "programs")


NEEDS = {"plugins": build_plugins, "programs": build_programs}


CONTROLLED = {"mc-sched": sched_workspace, "mc-map": map_workspace}


def build(package, profiles, needs=()):
    """Returns {profile: binary}."""
    l = lock()
    try:
        ensure_rocksdb()
        for n in needs:
            NEEDS[n]()
        out = {}
        def go(ws):
            for p in profiles:
                run(["cargo", "build", "--offline", "-p", package, "--profile", p], ws, harness_env(),
                    os.path.join(V, "build", "build-%s-%s.log" % (package, p)))
                out[p] = os.path.join(TARGET, p, package.replace("mc-", "mc"))
        os.environ.pop("MC_PLAIN", None)
        if package not in CONTROLLED:
            go(HARNESS)
            return out
        workspace = CONTROLLED[package]
        try:
            go(workspace())
        except BuildError:
            # The controlled form does not compile: whole operations are
            # interleaved then, without looking inside them.
            go(workspace(plain))
            os.environ["MC_PLAIN"] = "1"
        return out
    finally:
        l.close()


def setup():
    """Builds everything ahead of the checks, which then only rebuild what changed."""
    from checks import CHECKS
    todo, needs = {}, set()
    for spec in CHECKS.values():
        todo.setdefault(spec["package"], set()).update(spec["profiles"])
        needs.update(spec.get("needs", []))
    for package in sorted(todo):
        build(package, sorted(todo[package]), sorted(needs))
        needs = set()
